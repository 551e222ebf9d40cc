N='src/complex/cartesian_impl/num_complex_impl.rs'; P='src/complex/polar_impl.rs'
BUGS=[
dict(id='c20-prec-im',property='C20',file=N,old='format_args!(concat!("{:.1$", $t, "}"), abs_im, prec),',new='format_args!(concat!("{:.1$", $t, "}"), abs_im, if prec > 9 { 9 } else { prec }),',
 main='let z = Cartesian::new(1f64, -0.123456789012f64); assert_eq!(format!("{:.12}", z), "1.000000000000-0.123456789012i");',
 needs='a precision above nine',breaks='the imaginary part is printed with nine digits'),
dict(id='c20-plus-sign',property='C20',file=N,old='            } else if f.sign_plus() {',new='            } else if f.sign_plus() && !f.alternate() {',
 main='let z = Cartesian::new(10i32, -5i32); assert_eq!(format!("{:+#x}", z), "+0xa-0x5i"); assert_eq!(format!("{:+x}", z), "+a-5i");',
 needs='plus flag together with the alternate form',breaks='the leading plus sign is dropped'),
dict(id='c20-prefix-neg',property='C20',file=N,old='''                        "{}{pre}{re}-{pre}{im}i",
                        sign,
                        re = real,
                        im = imag,
                        pre = prefix
''',new='''                        "{}{pre}{re}-{im}i",
                        sign,
                        pre = prefix,
                        re = real,
                        im = imag
''',
 main='let z = Cartesian::new(10i32, -5i32); assert_eq!(format!("{:#b}", z), "0b1010-0b101i");',
 needs='alternate form with a negative imaginary part',breaks='the prefix of the imaginary part is missing'),
dict(id='c20-re-le',property='C20',file=N,old='''                $f,
                $re < T::mixed_zero(),
                $im < T::mixed_zero(),
                format_args!(concat!("{:.1$", $t, "}"), abs_re, prec),''',new='''                $f,
                $re < T::mixed_zero(),
                $im <= T::mixed_zero(),
                format_args!(concat!("{:.1$", $t, "}"), abs_re, prec),''',
 main='let z = Cartesian::new(10i32, 0i32); assert_eq!(format!("{}", z), "10+0i"); assert_eq!(format!("{:.1}", Cartesian::new(-1.5f32, 0.0)), "-1.5+0.0i");',
 needs='a zero imaginary part printed with a precision',breaks='zero is printed with a minus sign'),
dict(id='c20-octal-prefix',property='C20',file=N,old='write_complex!(f, "X", "0x", self.re, self.im)',new='write_complex!(f, "X", "0X", self.re, self.im)',
 main='let z = Cartesian::new(10i32, -5i32); assert_eq!(format!("{:#X}", z), "0xA-0x5i");',
 needs='alternate upper hexadecimal form',breaks='the prefix'),
]
