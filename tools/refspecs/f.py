T='src/trigonometry.rs'; S='src/trigonometry/sqrt.rs'; A='src/trigonometry/atan.rs'; O='src/complex/ops.rs'; C='src/complex/cartesian_impl.rs'
P='src/complex/polar_impl.rs'; X='src/fixed_impl.rs'; FL='src/float_impl.rs'; N='src/complex/cartesian_impl/num_complex_impl.rs'; I='src/int_impl.rs'; F3='src/float_impl/f32_impl.rs'; F6='src/float_impl/f64_impl.rs'; M='src/complex.rs'; B='src/traits/math_traits.rs'
ALL=['C01','C02','C03','C04','C05','C06','C07']
BETA='''        if x < T::mixed_from_num(5.0/16.0) {
            return beta_values[0];
        }
        else if x < T::mixed_from_num(6.0/16.0) {
            return beta_values[1];
        }
        else if x < T::mixed_from_num(7.0/16.0) {
            return beta_values[2];
        }
        else if x < T::mixed_from_num(8.0/16.0) {
            return beta_values[3];
        }
        else if x < T::mixed_from_num(9.0/16.0) {
            return beta_values[4];
        }
        else if x < T::mixed_from_num(10.0/16.0) {
            return beta_values[5];
        }
        else if x < T::mixed_from_num(11.0/16.0) {
            return beta_values[6];
        }
        else if x < T::mixed_from_num(12.0/16.0) {
            return beta_values[7];
        }
        else if x < T::mixed_from_num(13.0/16.0) {
            return beta_values[8];
        }
        else if x < T::mixed_from_num(14.0/16.0) {
            return beta_values[9];
        }
        else if x < T::mixed_from_num(15.0/16.0) {
            return beta_values[10];
        }
        else {
            return beta_values[11];
        }
'''
DIVF='''    let re = (a*c+b*d)/(c.mixed_powi(2)+d.mixed_powi(2));
    let im = (b*c-a*d)/(c.mixed_powi(2)+d.mixed_powi(2));
    return Cartesian::new(re, im);'''
EDITS=[
dict(id='mulpolar-match',props=['C04'],edits=[(O,'''    if a.mag==T::mixed_from_num(0) || b.mag==T::mixed_from_num(0)
    {
        let c = Polar::<T>{
            mag:     T::mixed_from_num(0),
            ang: T::mixed_from_num(0)
        };
        return c;
    }
    else
    {
        let c = Polar::<T>{
            mag: a.mag*b.mag,
            ang: a.ang+b.ang
        };
        return c;
    }''','''    let zero = T::mixed_from_num(0);
    match (a.mag == zero, b.mag == zero) {
        (false, false) => Polar { mag: a.mag*b.mag, ang: a.ang+b.ang },
        _ => Polar { mag: zero, ang: zero },
    }''')]),
dict(id='mulpolar-any',props=['C04'],edits=[(O,'''    if a.mag==T::mixed_from_num(0) || b.mag==T::mixed_from_num(0)
''','''    let zero = T::mixed_from_num(0);
    if [a, b].iter().any(|factor| factor.mag == zero)
''')]),
dict(id='div-scalar-array',props=['C03'],edits=[(O,'''        c.re = a.re / b;
        c.im = a.im / b;''','''        let [re, im] = [a.re, a.im].map(|part| part/b);
        c = Cartesian { re, im };''')]),
dict(id='div-closure',props=['C03'],edits=[(O,DIVF,'''    let norm = |z: Cartesian<T>| z.re.mixed_powi(2) + z.im.mixed_powi(2);
    let scale = norm(denominator);
    Cartesian { re: (a*c + b*d)/scale, im: (b*c - a*d)/scale }''')]),
dict(id='div-conj-fn',props=['C03'],edits=[(O,DIVF,'''    fn square_norm<T: MixedPowi + core::ops::Add<Output = T>>( z: &Cartesian<T> ) -> T where T: MixedNum {
        z.re.mixed_powi(2) + z.im.mixed_powi(2)
    }
    let n = square_norm(&denominator);
    let (re, im) = (a*c + b*d, b*c - a*d);
    return Cartesian::new(re/n, im/n);''')]),
dict(id='div-then',props=['C03'],edits=[(C,'''        if divisor == <T2 as MixedNumConversion<i32>>::mixed_from_num(0) {
            return Cartesian::new(T2::mixed_max_value(), T2::mixed_max_value());
        }
        return Cartesian::new(self.re/divisor, self.im/divisor);''','''        let zero = <T2 as MixedNumConversion<i32>>::mixed_from_num(0);
        let quotient = |part: T2| if divisor != zero { part/divisor } else { T2::mixed_max_value() };
        Cartesian { re: quotient(self.re), im: quotient(self.im) }''')]),
dict(id='div-option',props=['C03'],edits=[(C,'''        if divisor == <T2 as MixedNumConversion<i32>>::mixed_from_num(0) {
            self.re =T2::mixed_max_value();
            self.im =T2::mixed_max_value();
            return;
        }
        self.re = self.re/divisor;
        self.im = self.im/divisor;''','''        let usable = if divisor == <T2 as MixedNumConversion<i32>>::mixed_from_num(0) { None } else { Some(divisor) };
        for part in [&mut self.re, &mut self.im] {
            *part = match usable { Some(d) => *part/d, None => T2::mixed_max_value() };
        }''')]),
dict(id='div-let-else',props=['C03'],edits=[(C,'''        if divisor == <T2 as MixedNumConversion<i32>>::mixed_from_num(0) {
            self.re =T2::mixed_max_value();
            self.im =T2::mixed_max_value();
            return;
        }
        self.re = self.re/divisor;
        self.im = self.im/divisor;''','''        let is_zero = divisor == <T2 as MixedNumConversion<i32>>::mixed_from_num(0);
        let Some(d) = (!is_zero).then_some(divisor) else {
            *self = Cartesian::new(T2::mixed_max_value(), T2::mixed_max_value());
            return;
        };
        *self = Cartesian { re: self.re/d, im: self.im/d };''')]),
dict(id='addassign-pairs',props=['C01'],edits=[(C,'''                self.re =  self.re+rhs.re;
                self.im =  self.im+rhs.im;''','''                for (mine, other) in [(&mut self.re, rhs.re), (&mut self.im, rhs.im)] {
                    *mine = *mine + other;
                }''')]),
dict(id='sub-destructure',props=['C01'],edits=[(C,'return Cartesian::new(self.re-rhs.re, self.im-rhs.im);','let Cartesian { re, im } = self; Self { re: re - rhs.re, im: im - rhs.im }')]),
dict(id='exp-mulassign',props=['C06'],edits=[(C,'''        let mut r_value =  Self::new_from_cartesian(re, im);
        r_value.re *= scale;
        r_value.im *= scale;
        return r_value;''','''        let mut parts = [re, im];
        parts.iter_mut().for_each(|p| *p *= scale);
        let [re, im] = parts;
        Self { re, im }''')]),
dict(id='cpowi-polar',props=['C06'],edits=[(O,'''    let real   = mag*real_s;
    let imag   = mag*imag_s;

    return Cartesian::new_from_cartesian( real, imag);''','''    Cartesian { re: mag*real_s, im: mag*imag_s }''')]),
dict(id='sign-partial',props=['C15'],edits=[(T,'''    if x < T::mixed_from_num(0)
    {
        return T::mixed_from_num(-1);
    }
    else
    {
        return T::mixed_from_num(1);
    }''','''    let negative = x.partial_cmp(&T::mixed_from_num(0)) == Some(core::cmp::Ordering::Less);
    T::mixed_from_num(if negative { -1 } else { 1 })''')]),
dict(id='sqrt-beta-array',props=['C12'],edits=[(S,BETA,'''        let mut edge = 5.0/16.0;
        for value in &beta_values[..11] {
            if x < T::mixed_from_num(edge) { return *value; }
            edge += 1.0/16.0;
        }
        beta_values[11]
''')]),
dict(id='sqrt-beta-index',props=['C12'],edits=[(S,BETA,'''        let mut k = 0;
        while k < 11 && !(x < T::mixed_from_num((5 + k) as f64/16.0)) { k += 1; }
        beta_values[k]
''')]),
dict(id='sqrt-beta-position',props=['C12'],edits=[(S,BETA,'''        let k = (5..16).position(|n| x < T::mixed_from_num(n as f64/16.0)).unwrap_or(11);
        beta_values[k]
''')]),
dict(id='sqrt-beta-find',props=['C12'],edits=[(S,BETA,'''        (5..16i32).zip(beta_values.iter()).find(|(n, _)| x < T::mixed_from_num(*n as f64/16.0)).map(|(_, b)| *b).unwrap_or(beta_values[11])
''')]),
dict(id='sqrt-beta-const',props=['C12'],edits=[(S,'''        let beta_values = [ T::mixed_from_num(0.961914),
                            T::mixed_from_num(0.840332),
                            T::mixed_from_num(0.782715),
                            T::mixed_from_num(0.734869),
                            T::mixed_from_num(0.691406),
                            T::mixed_from_num(0.654297),
                            T::mixed_from_num(0.622070),
                            T::mixed_from_num(0.595215),
                            T::mixed_from_num(0.573731),
                            T::mixed_from_num(0.556152),
                            T::mixed_from_num(0.516113),
                            T::mixed_from_num(0.502930)];
''','''        const BETA: [f64; 12] = [0.961914, 0.840332, 0.782715, 0.734869, 0.691406, 0.654297, 0.622070, 0.595215, 0.573731, 0.556152, 0.516113, 0.502930];
        let beta_values = BETA.map(T::mixed_from_num);
''')]),
dict(id='sqrt-beta-static',props=['C12'],edits=[(S,'''        let beta_values = [ T::mixed_from_num(0.961914),
                            T::mixed_from_num(0.840332),
                            T::mixed_from_num(0.782715),
                            T::mixed_from_num(0.734869),
                            T::mixed_from_num(0.691406),
                            T::mixed_from_num(0.654297),
                            T::mixed_from_num(0.622070),
                            T::mixed_from_num(0.595215),
                            T::mixed_from_num(0.573731),
                            T::mixed_from_num(0.556152),
                            T::mixed_from_num(0.516113),
                            T::mixed_from_num(0.502930)];
''','''        static BETA: [f64; 12] = [0.961914, 0.840332, 0.782715, 0.734869, 0.691406, 0.654297, 0.622070, 0.595215, 0.573731, 0.556152, 0.516113, 0.502930];
        let beta_values: [T; 12] = core::array::from_fn(|k| T::mixed_from_num(BETA[k]));
''')]),
dict(id='fmt-sign-match',props=['C20'],edits=[(N,'''            let sign = if re_neg {
                "-"
            } else if f.sign_plus() {
                "+"
            } else {
                ""
            };''','''            let sign = match (re_neg, f.sign_plus()) {
                (true, _) => "-",
                (false, true) => "+",
                (false, false) => "",
            };''')]),
dict(id='fmt-join',props=['C20'],edits=[(N,'''            if im_neg {
                fmt_complex(
                    f,
                    format_args!(
                        "{}{pre}{re}-{pre}{im}i",
                        sign,
                        re = real,
                        im = imag,
                        pre = prefix
                    ),
                )
            } else {
                fmt_complex(
                    f,
                    format_args!(
                        "{}{pre}{re}+{pre}{im}i",
                        sign,
                        re = real,
                        im = imag,
                        pre = prefix
                    ),
                )
            }''','''            let joint = if im_neg { '-' } else { '+' };
            fmt_complex(f, format_args!("{sign}{prefix}{real}{joint}{prefix}{imag}i"))''')]),
dict(id='fmt-tuple-array',props=['C20'],edits=[(N,'''            if im_neg {
                fmt_complex(''','''            let joints = ["+", "-"];
            if joints[im_neg as usize] == "-" {
                fmt_complex(''')]),
dict(id='cos-sin-via-let',props=['C13'],edits=[(T,'sin(', 'sin(')]),
dict(id='abs-hypot-fold',props=['C05'],edits=[(O,'''    let r_sqr = a.re.mixed_powi(2) + a.im.mixed_powi(2);
    return r_sqr.mixed_sqrt();''','''    let [re, im] = [a.re, a.im].map(|part| part.mixed_powi(2));
    (re + im).mixed_sqrt()''')]),
dict(id='tocart-tuple',props=['C05'],edits=[(O,'''    let (imag_s, real_s) = theta.mixed_sincos();

    let c_cartesian = Cartesian::<T>{
        re: a.mag*real_s,
        im: a.mag*imag_s
    };
    return c_cartesian;''','''    let sincos = theta.mixed_sincos();
    let scaled = |unit: T| a.mag*unit;
    Cartesian::new(scaled(sincos.1), scaled(sincos.0))''')]),
dict(id='wrap-helper-trait',props=['C11','C13'],edits=[]),
]
EDITS=[e for e in EDITS if e['edits']]
