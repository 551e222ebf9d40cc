T='src/trigonometry.rs'; S='src/trigonometry/sqrt.rs'; A='src/trigonometry/atan.rs'; O='src/complex/ops.rs'; C='src/complex/cartesian_impl.rs'
P='src/complex/polar_impl.rs'; X='src/fixed_impl.rs'; FL='src/float_impl.rs'; N='src/complex/cartesian_impl/num_complex_impl.rs'; I='src/int_impl.rs'
EDITS=[
dict(id='powi-while',props=['C10'],edits=[(T,'''    let mut temp:T = base;
    for _i in 0..power-1 {
        temp = temp*base;
    }
    return temp;''','''    let mut acc = base;
    let mut left = power - 1;
    while left > 0 {
        acc = acc*base;
        left -= 1;
    }
    acc''')]),
dict(id='powi-count-up',props=['C10'],edits=[(T,'''    let mut temp:T = base;
    for _i in 0..power-1 {
        temp = temp*base;
    }
    return temp;''','''    let mut temp:T = base;
    let mut done = 1usize;
    loop {
        if done == power { break; }
        temp = temp*base;
        done += 1;
    }
    temp''')]),
dict(id='powi-from-one',props=['C10'],edits=[(T,'''    for _i in 0..power-1 {
        temp = temp*base;
    }''','''    for _i in 1..power {
        temp = base*temp;
    }''')]),
dict(id='powi-match',props=['C10'],edits=[(T,'''    if power==0
    {
        return T::mixed_from_num(1);
    }

    let mut temp:T = base;
    for _i in 0..power-1 {
        temp = temp*base;
    }
    return temp;''','''    match power {
        0 => T::mixed_from_num(1),
        1 => base,
        n => {
            let mut temp = base*base;
            for _ in 2..n { temp = temp*base; }
            temp
        }
    }''')]),
dict(id='powi-helper',props=['C10','C05','C13'],edits=[(T,'''        temp = temp*base;
    }
    return temp;''','''        temp = step(temp, base);
    }
    return temp;'''),(T,None,'''
fn step<T: crate::MixedOps + crate::MixedNum>(a: T, b: T) -> T { a*b }
''')]),
dict(id='powi-fold',props=['C10'],edits=[(T,'''    let mut temp:T = base;
    for _i in 0..power-1 {
        temp = temp*base;
    }
    return temp;''','''    return (0..power-1).fold(base, |temp, _| temp*base);''')]),
dict(id='wrap-loop',props=['C11'],edits=[(T,'''    while temp_scalar < -mixed_pi
    {
        // Add pi twice, as two pi is not representable by every type.
        temp_scalar = temp_scalar + mixed_pi + mixed_pi;
    }
    while mixed_pi <= temp_scalar
    {
        temp_scalar = temp_scalar - mixed_pi - mixed_pi;
    }
    return temp_scalar;''','''    let low = -mixed_pi;
    loop {
        if temp_scalar < low {
            temp_scalar = (temp_scalar + mixed_pi) + mixed_pi;
        } else {
            break;
        }
    }
    loop {
        if temp_scalar < mixed_pi { break; }
        let once = temp_scalar - mixed_pi;
        temp_scalar = once - mixed_pi;
    }
    temp_scalar''')]),
dict(id='wrap-swap',props=['C11'],edits=[(T,'''    while temp_scalar < -mixed_pi
    {
        // Add pi twice, as two pi is not representable by every type.
        temp_scalar = temp_scalar + mixed_pi + mixed_pi;
    }
    while mixed_pi <= temp_scalar
    {
        temp_scalar = temp_scalar - mixed_pi - mixed_pi;
    }
    return temp_scalar;''','''    while mixed_pi <= temp_scalar
    {
        temp_scalar = temp_scalar - mixed_pi - mixed_pi;
    }
    while temp_scalar < -mixed_pi
    {
        // Add pi twice, as two pi is not representable by every type.
        temp_scalar = temp_scalar + mixed_pi + mixed_pi;
    }
    return temp_scalar;''')]),
dict(id='wrap-early',props=['C11','C13'],edits=[(T,'''    while temp_scalar < -mixed_pi
''','''    if -mixed_pi <= phi && phi < mixed_pi { return phi; }
    while temp_scalar < -mixed_pi
''')]),
dict(id='wrap-combined',props=['C11'],edits=[(T,'''    while temp_scalar < -mixed_pi
    {
        // Add pi twice, as two pi is not representable by every type.
        temp_scalar = temp_scalar + mixed_pi + mixed_pi;
    }
    while mixed_pi <= temp_scalar
    {
        temp_scalar = temp_scalar - mixed_pi - mixed_pi;
    }
    return temp_scalar;''','''    loop
    {
        if temp_scalar < -mixed_pi {
            temp_scalar = temp_scalar + mixed_pi + mixed_pi;
        } else if mixed_pi <= temp_scalar {
            temp_scalar = temp_scalar - mixed_pi - mixed_pi;
        } else {
            return temp_scalar;
        }
    }''')]),
dict(id='wrap-helper',props=['C11'],edits=[(T,'''        temp_scalar = temp_scalar + mixed_pi + mixed_pi;''','''        temp_scalar = turn(temp_scalar, mixed_pi);'''),(T,None,'''
fn turn<T: crate::MixedOps + crate::MixedNum>(a: T, pi: T) -> T { a + pi + pi }
''')]),
dict(id='sin-order',props=['C13'],edits=[(T,'''    let mut sinx = x_-( x_.mixed_powi(3)/T::mixed_from_num(6) );
    sinx += x_.mixed_powi(5)/T::mixed_from_num(120);
    sinx -= x_.mixed_powi(7)/T::mixed_from_num(5040);
    sinx += x_.mixed_powi(9)/T::mixed_from_num(362880);
    return sinx;''','''    let t3 = x_.mixed_powi(3)/T::mixed_from_num(6);
    let t5 = x_.mixed_powi(5)/T::mixed_from_num(120);
    let t7 = x_.mixed_powi(7)/T::mixed_from_num(5040);
    let t9 = x_.mixed_powi(9)/T::mixed_from_num(362880);
    return x_ - t3 + t5 - t7 + t9;''')]),
dict(id='sin-fold',props=['C13'],edits=[(T,'''    let mut x_ = x;

    // Ensure that the angle is within the accurate range of the tailor series. 
    if x < -mixed_pi_half
    {   
        let delta:T = x+mixed_pi_half;
        x_ = -mixed_pi_half-delta;
    }
    else if mixed_pi_half < x
    {
        let delta:T = x-mixed_pi_half;
        x_ = mixed_pi_half-delta;
    }
''','''    // Ensure that the angle is within the accurate range of the tailor series. 
    let x_ = if mixed_pi_half < x {
        mixed_pi_half-(x-mixed_pi_half)
    } else if x >= -mixed_pi_half {
        x
    } else {
        -mixed_pi_half-(x+mixed_pi_half)
    };
''')]),
dict(id='sin-horner',props=['C13'],edits=[(T,'''    let mut sinx = x_-( x_.mixed_powi(3)/T::mixed_from_num(6) );
    sinx += x_.mixed_powi(5)/T::mixed_from_num(120);
    sinx -= x_.mixed_powi(7)/T::mixed_from_num(5040);
    sinx += x_.mixed_powi(9)/T::mixed_from_num(362880);
    return sinx;''','''    let mut sinx = x_;
    let mut sign_plus = false;
    for (n, d) in [(3, 6), (5, 120), (7, 5040), (9, 362880)] {
        let t = x_.mixed_powi(n)/T::mixed_from_num(d);
        if sign_plus { sinx += t; } else { sinx -= t; }
        sign_plus = !sign_plus;
    }
    return sinx;''')]),
dict(id='cos-inline',props=['C13'],edits=[(T,'''    let mut x_shifted = x+mixed_pi_half;
    x_shifted = wrap_phase(x_shifted);
    return sin(x_shifted);''','''    sin((mixed_pi_half+x).mixed_wrap_phase())''')]),
dict(id='atan-merge',props=['C14'],edits=[(A,'''    let phi = (x*y) / ( x.mixed_powi(2) + T::mixed_from_num( 0.28125 )*y.mixed_powi(2) );
    return phi;''','''    return atan_poly_2(x, y);''')]),
dict(id='atan-cmp',props=['C14'],edits=[(A,'''            if y_abs - x_abs < T::mixed_from_num( 0.0 )
''','''            if y_abs < x_abs
'''),(A,'if T::mixed_zero() <= y_abs - x_abs','if x_abs <= y_abs'),(A,'if y_abs - x_abs < T::mixed_zero()','if y_abs < x_abs')]),
dict(id='atan-match',props=['C14'],edits=[(A,'''            // First octant.
            if y_abs - x_abs < T::mixed_from_num( 0.0 )
            {
                return atan_poly_1( y, x );
            }
            // Second octant.
            else
            {
                return pi_half -atan_poly_2( y, x );
            }''','''            let steep = T::mixed_zero() <= y_abs - x_abs;
            return match steep {
                false => atan_poly_1( y, x ),
                true => pi_half - atan_poly_2( y, x ),
            };''')]),
dict(id='sqrt-ops',props=['C12'],edits=[(S,'''        if y_squared <= x_
        {
            y = y + beta(x_)*(x_-y_squared);
        }
        else
        {
            y = y - beta(x_)*(y_squared-x_);
        }''','''        let b = beta(x_);
        if x_ < y_squared
        {
            y = y - b*(y_squared-x_);
        }
        else
        {
            y = b*(x_-y_squared) + y;
        }''')]),
dict(id='sqrt-table',props=['C12'],edits=[(S,'''        if x < T::mixed_from_num(5.0/16.0) {
            return beta_values[0];
        }
''','''        let mut i = 0usize;
        let mut edge = T::mixed_from_num(5.0/16.0);
        while i < 11 {
            if x < edge { return beta_values[i]; }
            edge = edge + T::mixed_from_num(1.0/16.0);
            i += 1;
        }
        if i == 11 { return beta_values[11]; }

        if x < T::mixed_from_num(5.0/16.0) {
            return beta_values[0];
        }
''')]),
dict(id='sqrt-two-loops',props=['C12'],edits=[(S,'''    while norm.abs() != 0
    {
        // Denormalize the solution.
        if 0 < norm
        {
            y = y*T::mixed_from_num(2);
            norm-=1;
        }
        else if norm < 0
        {
            y = y/T::mixed_from_num(2);
            norm+=1;
        }
    }
    return y;''','''    while norm > 0
    {
        y = y*T::mixed_from_num(2);
        norm-=1;
    }
    while norm < 0
    {
        y = y/T::mixed_from_num(2);
        norm+=1;
    }
    return y;''')]),
dict(id='sqrt-for',props=['C12'],edits=[(S,'''    while norm.abs() != 0
    {
        // Denormalize the solution.
        if 0 < norm
        {
            y = y*T::mixed_from_num(2);
            norm-=1;
        }
        else if norm < 0
        {
            y = y/T::mixed_from_num(2);
            norm+=1;
        }
    }
    return y;''','''    for _ in 0..norm.abs()
    {
        y = if norm > 0 { y*T::mixed_from_num(2) } else { y/T::mixed_from_num(2) };
    }
    return y;''')]),
dict(id='sqrt-norm-edge',props=['C12'],edits=[(S,'''    while T::mixed_from_num(1.0) <= x_''','''    while T::mixed_from_num(1.0) < x_''')]),
dict(id='sqrt-iter-while',props=['C12'],edits=[(S,'''    for _n in 1..iterations
    {''','''    let mut left = iterations;
    while left > 1
    {
        left -= 1;''')]),
dict(id='sqrt-quad',props=['C12'],edits=[(S,'x_ = x_/T::mixed_from_num(2)/T::mixed_from_num(2);','''x_ = quarter(x_);'''),(S,None,'''
fn quarter<T: MixedReal + MixedOps>(x: T) -> T { let two = T::mixed_from_num(2); (x/two)/two }
''')]),
dict(id='sqrt-lut-const',props=['C12'],edits=[(S,'''    let mut y = (T::mixed_from_num(2)*x_)/T::mixed_from_num(3) + T::mixed_from_num(0.354167);   // y0''','''    let offset = T::mixed_from_num(0.354167);
    let mut y = offset + (x_*T::mixed_from_num(2))/T::mixed_from_num(3);   // y0''')]),
]
