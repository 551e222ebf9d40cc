use mixed_num::*;
use mixed_num::traits::*;
use num::Complex;
use mixed_num::complex as co;
use replay::*;

const N: usize = 60;
/// Two to four components, some of them related.
fn quad<T: V>(c: &mut Ctx, p: &[T]) -> (T, T, T, T) {
    let mut q = [pick(c, p), pick(c, p), pick(c, p), pick(c, p)];
    if c.next() % 5 == 0 {
        let (i, j) = (c.next() as usize % 4, c.next() as usize % 4);
        q[i] = q[j];
        if c.next() % 2 == 0 { q[i] = q[j].minus(); }
    }
    (q[0], q[1], q[2], q[3])
}



fn scale_of<T: V>(xs: &[T]) -> f64 {
    let m = xs.iter().fold(0.0f64, |a, b| a.max(b.f().abs()));
    m.max(m * m)
}

macro_rules! each_cx { ($m:ident, $c:expr) => {
    $m!($c, f32); $m!($c, f64);
    $m!($c, fixed::FixedI32<fixed::types::extra::U16>);
    $m!($c, fixed::FixedI64<fixed::types::extra::U32>);
    $m!($c, fixed::FixedI16<fixed::types::extra::U8>);
    $m!($c, fixed::FixedI32<fixed::types::extra::U29>);
} }

macro_rules! out { ($r:expr) => {{ let r = $r; vec![r.re, r.im] }} }
macro_rules! outp { ($r:expr) => {{ let r = $r; vec![r.mag, r.ang] }} }

macro_rules! check { ($c:expr, $T:ty, $form:expr, [$($x:expr),*], $want:expr, $got:expr) => {{
    let xs: Vec<$T> = vec![$($x),*];
    let lab = format!("{} for {}", $form, stringify!($T));
    let sc = scale_of(&xs);
    let inp = || xs.iter().map(|v| v.show()).collect::<Vec<_>>().join(" ");
    let want = ($want).clone();
    if want.is_some() { judge::<$T>($c, &lab, &inp, sc, run(&lab, &inp, || $got), want); }
}} }

// ------------------------------------------------------------------ C01
macro_rules! m01 { ($c:expr, $T:ty) => {{
    let p = <$T as V>::pool($c, N);
    for _ in 0..pairs($c) {
        let (a, b, x, y) = quad($c, &p);
        let l = Cartesian::new(a, b);
        let r = Cartesian::new(x, y);
        let q = Complex { re: x, im: y };
        let w = eval(|| vec![a + x, b + y]);
        check!($c, $T, "a+b", [a,b,x,y], w, out!(l + r));
        check!($c, $T, "a+&b", [a,b,x,y], w, out!(l + &r));
        check!($c, $T, "a+&mut b", [a,b,x,y], w, { let mut r2 = r; let s = l + &mut r2; assert!(r2.re == r.re || r.re != r.re); vec![s.re, s.im] });
        check!($c, $T, "a+Complex", [a,b,x,y], w, out!(l + q));
        check!($c, $T, "a+&Complex", [a,b,x,y], w, out!(l + &q));
        check!($c, $T, "a+&mut Complex", [a,b,x,y], w, { let mut q2 = q; out!(l + &mut q2) });
        check!($c, $T, "a+=b", [a,b,x,y], w, { let mut l2 = l; l2 += r; out!(l2) });
        check!($c, $T, "a+=&b", [a,b,x,y], w, { let mut l2 = l; l2 += &r; out!(l2) });
        check!($c, $T, "a+=&mut b", [a,b,x,y], w, { let mut l2 = l; let mut r2 = r; l2 += &mut r2; out!(l2) });
        check!($c, $T, "b unchanged by a+=&mut b", [a,b,x,y], eval(|| vec![a + x, b + y]).map(|_| vec![x, y]), { let mut l2 = l; let mut r2 = r; l2 += &mut r2; out!(r2) });
        check!($c, $T, "a+=Complex", [a,b,x,y], w, { let mut l2 = l; l2 += q; out!(l2) });
        check!($c, $T, "a+=&Complex", [a,b,x,y], w, { let mut l2 = l; l2 += &q; out!(l2) });
        check!($c, $T, "a+=&mut Complex", [a,b,x,y], w, { let mut l2 = l; let mut q2 = q; l2 += &mut q2; out!(l2) });
        check!($c, $T, "ops::add", [a,b,x,y], w, out!(co::add(l, r)));
        let w = eval(|| vec![a - x, b - y]);
        check!($c, $T, "a-b", [a,b,x,y], w, out!(l - r));
        check!($c, $T, "a-&b", [a,b,x,y], w, out!(l - &r));
        check!($c, $T, "a-&mut b", [a,b,x,y], w, { let mut r2 = r; out!(l - &mut r2) });
        check!($c, $T, "a-Complex", [a,b,x,y], w, out!(l - q));
        check!($c, $T, "a-&Complex", [a,b,x,y], w, out!(l - &q));
        check!($c, $T, "a-&mut Complex", [a,b,x,y], w, { let mut q2 = q; out!(l - &mut q2) });
        check!($c, $T, "a-=b", [a,b,x,y], w, { let mut l2 = l; l2 -= r; out!(l2) });
        check!($c, $T, "a-=&b", [a,b,x,y], w, { let mut l2 = l; l2 -= &r; out!(l2) });
        check!($c, $T, "a-=&mut b", [a,b,x,y], w, { let mut l2 = l; let mut r2 = r; l2 -= &mut r2; out!(l2) });
        check!($c, $T, "b unchanged by a-=&mut b", [a,b,x,y], eval(|| vec![a - x, b - y]).map(|_| vec![x, y]), { let mut l2 = l; let mut r2 = r; l2 -= &mut r2; out!(r2) });
        check!($c, $T, "a-=Complex", [a,b,x,y], w, { let mut l2 = l; l2 -= q; out!(l2) });
        check!($c, $T, "a-=&Complex", [a,b,x,y], w, { let mut l2 = l; l2 -= &q; out!(l2) });
        check!($c, $T, "a-=&mut Complex", [a,b,x,y], w, { let mut l2 = l; let mut q2 = q; l2 -= &mut q2; out!(l2) });
        check!($c, $T, "ops::sub", [a,b,x,y], w, out!(co::sub(l, r)));
        let k = (x.f() as i64 % 1000) as i32;
        let kf = x.f() as f32;
        let kd = y.f();
        macro_rules! mixed { ($k:expr) => {{
            let k = $k;
            let cv = eval(|| <$T>::mixed_from_num(k));
            if let Some(cv) = cv {
                check!($c, $T, "a+mixed scalar", [a,b,cv], eval(|| vec![a + cv, b]), out!(l + k));
                check!($c, $T, "a+=mixed scalar", [a,b,cv], eval(|| vec![a + cv, b]), { let mut l2 = l; l2 += k; out!(l2) });
                check!($c, $T, "a-mixed scalar", [a,b,cv], eval(|| vec![a - cv, b]), out!(l - k));
                check!($c, $T, "a-=mixed scalar", [a,b,cv], eval(|| vec![a - cv, b]), { let mut l2 = l; l2 -= k; out!(l2) });
            }
        }} }
        mixed!(k); mixed!(kf); mixed!(kd);
    }
}} }
#[cfg(feature = "c01")]
pub fn c01(c: &mut Ctx) { each_cx!(m01, c); }

// ------------------------------------------------------------------ C02
macro_rules! cmul { ($a:expr,$b:expr,$x:expr,$y:expr) => { vec![($a * $x) - ($b * $y), ($a * $y) + ($b * $x)] } }
macro_rules! tocart { ($m:expr, $w:expr) => {{ let t = $w.mixed_wrap_phase(); ($m * t.mixed_cos(), $m * t.mixed_sin()) }} }
macro_rules! topol { ($re:expr, $im:expr) => {{ (($re * $re + $im * $im).mixed_sqrt(), $im.mixed_atan2($re)) }} }

macro_rules! m02 { ($c:expr, $T:ty) => {{
    let p = <$T as V>::pool($c, N);
    for _ in 0..pairs($c) {
        let (a, b, x, y) = quad($c, &p);
        let l = Cartesian::new(a, b);
        let r = Cartesian::new(x, y);
        let w = eval(|| cmul!(a, b, x, y));
        check!($c, $T, "a*b", [a,b,x,y], w, out!(l * r));
        check!($c, $T, "a*&b", [a,b,x,y], w, out!(l * &r));
        check!($c, $T, "a*&mut b", [a,b,x,y], w, { let mut r2 = r; out!(l * &mut r2) });
        check!($c, $T, "ops::mul_cartesian", [a,b,x,y], w, out!(co::mul_cartesian(l, r)));
        if !(y.f().abs() < 40.0) { continue; }
        let q = Polar::new(x, y);
        let w = eval(|| { let (u, v) = tocart!(x, y); cmul!(a, b, u, v) });
        check!($c, $T, "a*polar", [a,b,x,y], w, out!(l * q));
        check!($c, $T, "a*&polar", [a,b,x,y], w, out!(l * &q));
        check!($c, $T, "a*&mut polar", [a,b,x,y], w, { let mut q2 = q; out!(l * &mut q2) });
        check!($c, $T, "a*=polar", [a,b,x,y], w, { let mut l2 = l; l2 *= q; out!(l2) });
        check!($c, $T, "a*=&polar", [a,b,x,y], w, { let mut l2 = l; l2 *= &q; out!(l2) });
        check!($c, $T, "a*=&mut polar", [a,b,x,y], w, { let mut l2 = l; let mut q2 = q; l2 *= &mut q2; out!(l2) });
        check!($c, $T, "polar unchanged by a*=&mut polar", [a,b,x,y], w.clone().map(|_| vec![x, y]), { let mut l2 = l; let mut q2 = q; l2 *= &mut q2; vec![q2.mag, q2.ang] });
        macro_rules! mixed { ($k:expr) => {{
            let k = $k;
            if let Some(cv) = eval(|| <$T>::mixed_from_num(k)) {
                check!($c, $T, "a*mixed scalar", [a,b,cv], eval(|| vec![a * cv, b * cv]), out!(l * k));
            }
        }} }
        mixed!((x.f() as i64 % 1000) as i32); mixed!(x.f() as f32); mixed!(y.f());
    }
}} }
#[cfg(feature = "c02")]
pub fn c02(c: &mut Ctx) { each_cx!(m02, c); }

// ------------------------------------------------------------------ C03
macro_rules! cdiv { ($a:expr,$b:expr,$x:expr,$y:expr) => {{ let n = $x * $x + $y * $y; vec![($a * $x + $b * $y) / n, ($b * $x - $a * $y) / n] }} }
macro_rules! sdiv { ($T:ty,$a:expr,$b:expr,$k:expr) => {{ if $k == <$T>::mixed_zero() { vec![<$T>::MAX, <$T>::MAX] } else { vec![$a / $k, $b / $k] } }} }

macro_rules! m03 { ($c:expr, $T:ty) => {{
    let p = <$T as V>::pool($c, N);
    for i in 0..pairs($c) {
        let (a, b, x, y) = quad($c, &p);
        let x = if i % 11 == 0 { <$T>::mixed_zero() } else { x };
        let l = Cartesian::new(a, b);
        let r = Cartesian::new(x, y);
        let q = Complex { re: x, im: y };
        let w = eval(|| cdiv!(a, b, x, y));
        check!($c, $T, "a/b", [a,b,x,y], w, out!(l / r));
        check!($c, $T, "a/&b", [a,b,x,y], w, out!(l / &r));
        check!($c, $T, "a/&mut b", [a,b,x,y], w, { let mut r2 = r; out!(l / &mut r2) });
        check!($c, $T, "a/Complex", [a,b,x,y], w, out!(l / q));
        check!($c, $T, "a/&Complex", [a,b,x,y], w, out!(l / &q));
        check!($c, $T, "a/&mut Complex", [a,b,x,y], w, { let mut q2 = q; out!(l / &mut q2) });
        check!($c, $T, "ops::div_cartesian", [a,b,x,y], w, out!(co::div_cartesian(l, r)));
        check!($c, $T, "a/=b", [a,b,x,y], w, { let mut l2 = l; l2 /= r; out!(l2) });
        check!($c, $T, "a/=&b", [a,b,x,y], w, { let mut l2 = l; l2 /= &r; out!(l2) });
        check!($c, $T, "a/=&mut b", [a,b,x,y], w, { let mut l2 = l; let mut r2 = r; l2 /= &mut r2; out!(l2) });
        check!($c, $T, "b unchanged by a/=&mut b", [a,b,x,y], w.clone().map(|_| vec![x, y]), { let mut l2 = l; let mut r2 = r; l2 /= &mut r2; out!(r2) });
        check!($c, $T, "a/=Complex", [a,b,x,y], w, { let mut l2 = l; l2 /= q; out!(l2) });
        check!($c, $T, "a/=&Complex", [a,b,x,y], w, { let mut l2 = l; l2 /= &q; out!(l2) });
        check!($c, $T, "a/=&mut Complex", [a,b,x,y], w, { let mut l2 = l; let mut q2 = q; l2 /= &mut q2; out!(l2) });
        check!($c, $T, "ops::div_scalar_cartesian", [a,b,x], eval(|| sdiv!($T, a, b, x)), out!(co::div_scalar_cartesian(l, x)));
        macro_rules! mixed { ($k:expr) => {{
            let k = $k;
            if let Some(cv) = eval(|| <$T>::mixed_from_num(k)) {
                let w = eval(|| sdiv!($T, a, b, cv));
                check!($c, $T, &format!("a/mixed scalar {:?}", k), [a,b,cv], w, out!(l / k));
                check!($c, $T, &format!("a/=mixed scalar {:?}", k), [a,b,cv], w, { let mut l2 = l; l2 /= k; out!(l2) });
            }
        }} }
        if i % 3 == 0 { mixed!((x.f() as i64 % 1000) as i32); mixed!(x.f() as f32); mixed!(y.f()); mixed!(1e-12f64); mixed!(0i32); mixed!(-1e-30f32); }
    }
}} }
#[cfg(feature = "c03")]
pub fn c03(c: &mut Ctx) { each_cx!(m03, c); }

// ------------------------------------------------------------------ C04
macro_rules! pmul { ($T:ty,$m:expr,$a:expr,$n:expr,$b:expr) => {{ let z = <$T>::mixed_zero(); if $m == z || $n == z { vec![z, z] } else { vec![$m * $n, $a + $b] } }} }
macro_rules! m04 { ($c:expr, $T:ty) => {{
    let p = <$T as V>::pool($c, N);
    for i in 0..pairs($c) {
        let (a, b, x, y) = quad($c, &p);
        let z = <$T>::mixed_zero();
        let (a, x) = match i % 9 { 0 => (z, x), 1 => (a, z), 2 => (z, z), _ => (a, x) };
        let l = Polar::new(a, b);
        let w = eval(|| pmul!($T, a, b, x, y));
        check!($c, $T, "p*q", [a,b,x,y], w, outp!(l * Polar::new(x, y)));
        check!($c, $T, "ops::mul_polar", [a,b,x,y], w, outp!(co::mul_polar(l, Polar::new(x, y))));
        let w = eval(|| { let (m, t) = topol!(x, y); pmul!($T, a, b, m, t) });
        check!($c, $T, "p*cartesian", [a,b,x,y], w, outp!(l * Cartesian::new(x, y)));
        check!($c, $T, "p*scalar", [a,b,x], eval(|| vec![a * x, b]), outp!(l * x));
        check!($c, $T, "p/scalar", [a,b,x], eval(|| if x == z { vec![<$T>::MAX, b] } else { vec![a / x, b] }), outp!(l / x));
    }
}} }
#[cfg(feature = "c04")]
pub fn c04(c: &mut Ctx) { each_cx!(m04, c); }

// ------------------------------------------------------------------ C05
macro_rules! m05 { ($c:expr, $T:ty) => {{
    let p = <$T as V>::pool($c, N);
    for _ in 0..pairs($c) {
        let (a, b, _, _) = quad($c, &p);
        let z = <$T>::mixed_zero();
        let l = Cartesian::new(a, b);
        let q = Polar::new(a, b);
        let two = |x: ($T, $T)| vec![x.0, x.1];
        let wp = eval(|| two(topol!(a, b)));
        check!($c, $T, "Cartesian::to_polar", [a,b], wp, outp!(l.to_polar()));
        check!($c, $T, "ops::to_polar", [a,b], wp, outp!(co::to_polar(l)));
        check!($c, $T, "Polar::new_from_cartesian", [a,b], wp, outp!(Polar::new_from_cartesian(a, b)));
        check!($c, $T, "Cartesian::new_from_cartesian", [a,b], Some(vec![a, b]), out!(Cartesian::new_from_cartesian(a, b)));
        check!($c, $T, "Cartesian::new", [a,b], Some(vec![a, b]), out!(Cartesian::new(a, b)));
        check!($c, $T, "Polar::new", [a,b], Some(vec![a, b]), outp!(Polar::new(a, b)));
        check!($c, $T, "Polar::new_from_polar", [a,b], Some(vec![a, b]), outp!(Polar::new_from_polar(a, b)));
        check!($c, $T, "Cartesian::to_cartesian", [a,b], Some(vec![a, b]), out!(l.to_cartesian()));
        check!($c, $T, "Polar::to_polar", [a,b], Some(vec![a, b]), outp!(q.to_polar()));
        let m = eval(|| (a * a + b * b).mixed_sqrt());
        check!($c, $T, "Cartesian::mag", [a,b], m.map(|v| vec![v]), vec![l.mag()]);
        check!($c, $T, "Cartesian::abs", [a,b], m.map(|v| vec![v]), vec![l.abs()]);
        check!($c, $T, "ops::abs", [a,b], m.map(|v| vec![v]), vec![co::abs(l)]);
        check!($c, $T, "Cartesian::mixed_abs", [a,b], m.map(|v| vec![v, z]), out!(l.mixed_abs()));
        let t = eval(|| b.mixed_atan2(a));
        check!($c, $T, "Cartesian::arg", [a,b], t.map(|v| vec![v]), vec![l.arg()]);
        check!($c, $T, "Cartesian::ang", [a,b], t.map(|v| vec![v]), vec![l.ang()]);
        check!($c, $T, "Polar::mag", [a,b], Some(vec![a]), vec![q.mag()]);
        check!($c, $T, "Polar::abs", [a,b], Some(vec![a]), vec![q.abs()]);
        check!($c, $T, "Polar::mixed_abs", [a,b], Some(vec![a, z]), outp!(q.mixed_abs()));
        check!($c, $T, "Polar::arg", [a,b], Some(vec![b]), vec![q.arg()]);
        check!($c, $T, "Polar::ang", [a,b], Some(vec![b]), vec![q.ang()]);
        check!($c, $T, "Cartesian::conj", [a,b], eval(|| vec![a, -b]), { let r: Cartesian<$T> = l.conj(); out!(r) });
        check!($c, $T, "Polar::conj", [a,b], eval(|| vec![a, -b]), { let r: Polar<$T> = q.conj(); outp!(r) });
        check!($c, $T, "Cartesian::conj as Polar", [a,b], eval(|| two(topol!(a, (-b)))), { let r: Polar<$T> = l.conj(); outp!(r) });
        if !(b.f().abs() < 40.0) { continue; }
        let wc = eval(|| two(tocart!(a, b)));
        check!($c, $T, "Polar::to_cartesian", [a,b], wc, out!(q.to_cartesian()));
        check!($c, $T, "ops::to_cartesian", [a,b], wc, out!(co::to_cartesian(q)));
        check!($c, $T, "Cartesian::new_from_polar", [a,b], wc, out!(Cartesian::new_from_polar(a, b)));
        check!($c, $T, "Polar::conj as Cartesian", [a,b], eval(|| two(tocart!(a, (-b)))), { let r: Cartesian<$T> = q.conj(); out!(r) });
    }
}} }
#[cfg(feature = "c05")]
pub fn c05(c: &mut Ctx) { each_cx!(m05, c); }

// ------------------------------------------------------------------ C06
macro_rules! m06 { ($c:expr, $T:ty) => {{
    let p = <$T as V>::pool($c, N);
    for _ in 0..pairs($c) {
        let (a, b, _, _) = quad($c, &p);
        if !(b.f().abs() < 1e4 && a.f().abs() < 20.0) { continue; }
        let w = eval(|| { let s = a.mixed_exp(); vec![s * b.mixed_cos(), s * b.mixed_sin()] });
        check!($c, $T, "mixed_exp", [a,b], w, out!(Cartesian::new(a, b).mixed_exp()));
    }
}} }
macro_rules! m06b { ($c:expr, $T:ty) => {{
    let p = <$T as V>::pool($c, N);
    for i in 0..pairs($c) {
        let (a, b, _, _) = quad($c, &p);
        for n in [0usize, 1, 2, 3, 4, 5, 7] {
            let w = eval(|| { let r = (a * a + b * b).mixed_sqrt().mixed_powi(n as i32); let t = b.mixed_atan2(a) * <$T>::from_num(n); vec![r * t.mixed_cos(), r * t.mixed_sin()] });
            let lab = format!("ops::powi n={}", n);
            check!($c, $T, lab, [a,b], w, out!(co::powi(Cartesian::new(a, b), n)));
        }
    }
}} }
#[cfg(feature = "c06")]
pub fn c06(c: &mut Ctx) {
    each_cx!(m06, c);
    m06b!(c, fixed::FixedI32<fixed::types::extra::U16>);
    m06b!(c, fixed::FixedI64<fixed::types::extra::U32>);
    m06b!(c, fixed::FixedI16<fixed::types::extra::U8>);
}

// ------------------------------------------------------------------ C07 (generic layer)
macro_rules! m07 { ($c:expr, $T:ty) => {{
    let p = <$T as V>::pool($c, N);
    let (z, o) = (<$T>::mixed_zero(), eval(|| <$T>::mixed_one()));
    check!($c, $T, "Cartesian::mixed_zero", [z], Some(vec![z, z]), out!(Cartesian::<$T>::mixed_zero()));
    check!($c, $T, "Polar::mixed_zero", [z], Some(vec![z, z]), outp!(Polar::<$T>::mixed_zero()));
    check!($c, $T, "Cartesian::mixed_one", [z], o.map(|v| vec![v, z]), out!(Cartesian::<$T>::mixed_one()));
    check!($c, $T, "Polar::mixed_one", [z], o.map(|v| vec![v, z]), outp!(Polar::<$T>::mixed_one()));
    for _ in 0..pairs($c) {
        let (a, b, _, _) = quad($c, &p);
        check!($c, $T, "Cartesian::mixed_to_complex", [a], Some(vec![a, z]), { let r: Cartesian<$T> = Cartesian::mixed_to_complex(a); out!(r) });
        check!($c, $T, "Polar::mixed_to_complex", [a], Some(vec![a, z]), { let r: Polar<$T> = Polar::mixed_to_complex(a); outp!(r) });
        macro_rules! conv { ($S:ty) => {{
            let s: Option<($S, $S)> = eval(|| (MixedNumConversion::<$S>::mixed_to_num(&a), MixedNumConversion::<$S>::mixed_to_num(&b)));
            if let Some((x, y)) = s {
                let lab = format!("Cartesian<{}>::mixed_to_num for component type", stringify!($S));
                judge::<$S>($c, &lab, &|| format!("{} {}", a.show(), b.show()), 0.0,
                    eval(|| { let r: Cartesian<$S> = Cartesian::new(a, b).mixed_to_num(); vec![r.re, r.im] }), Some(vec![x, y]));
                check!($c, $T, "Cartesian::mixed_from_num(Cartesian)", [a,b], eval(|| vec![<$T>::mixed_from_num(x), <$T>::mixed_from_num(y)]),
                    out!(<Cartesian<$T> as MixedNumConversion<Cartesian<$S>>>::mixed_from_num(Cartesian::new(x, y))));
                check!($c, $T, "Polar::mixed_from_num(real)", [a], eval(|| vec![<$T>::mixed_from_num(x), z]),
                    outp!(<Polar<$T> as MixedNumConversion<$S>>::mixed_from_num(x)));
                judge::<$S>($c, "Polar::mixed_to_num", &|| format!("{} {}", a.show(), b.show()), 0.0,
                    eval(|| vec![<Polar<$T> as MixedNumConversion<$S>>::mixed_to_num(&Polar::new(a, b))]), Some(vec![x]));
            }
        }} }
        conv!(f32); conv!(f64); conv!(i32); conv!(i64);
    }
}} }
#[cfg(feature = "c07")]
pub fn c07(c: &mut Ctx) { each_cx!(m07, c); }

// ------------------------------------------------------------------ C21
macro_rules! m21 { ($c:expr, $T:ty, $more:expr) => {{
    let mut p = <$T as V>::pool($c, N);
    let n: Vec<$T> = $more;
    p.extend(n.iter().cloned());
    let z = <$T>::default();
    macro_rules! is { ($form:expr, $inp:expr, $got:expr, $want:expr) => {{
        $c.cases += 1;
        let inp = $inp;
        let lab = format!("{} for {}", $form, stringify!($T));
        let want = $want;
        match run(&lab, &inp, || $got) {
            None => $c.hit(false, &lab, inp(), "panic".into(), format!("{:?}", want)),
            Some(g) => if g != want { $c.hit(false, &lab, inp(), format!("{:?}", g), format!("{:?}", want)); }
        }
    }} }
    let same = |a: $T, b: $T| a.key() == b.key();
    for _ in 0..8 * pairs($c) {
        let (a, b, mut x, mut y) = quad($c, &p);
        match $c.next() % 6 { 0 => x = a, 1 => { x = a; y = b; }, 2 => y = b, 3 if n.len() > 0 => { x = a; y = n[$c.next() as usize % n.len()]; }, _ => {} }
        let inp = || format!("({}, {}) ({}, {})", a.show(), b.show(), x.show(), y.show());
        let eq = a == x && b == y;
        let ord = if a < x { Some(Ordering::Less) } else if a > x { Some(Ordering::Greater) } else if a == x { b.partial_cmp(&y) } else { None };
        let (k, l) = (Cartesian::new(a, b), Cartesian::new(x, y));
        let (q, r) = (Polar::new(a, b), Polar::new(x, y));
        is!("Cartesian ==", inp, k == l, eq);
        is!("Cartesian !=", inp, k != l, !eq);
        is!("Cartesian partial_cmp", inp, k.partial_cmp(&l), ord);
        is!("Cartesian < <= > >=", inp, (k < l, k <= l, k > l, k >= l), (ord == Some(Ordering::Less), ord.map_or(false, |o| o.is_le()), ord == Some(Ordering::Greater), ord.map_or(false, |o| o.is_ge())));
        is!("Cartesian clone", inp, { let m = Clone::clone(&k); same(m.re, a) && same(m.im, b) }, true);
        is!("Polar ==", inp, q == r, eq);
        is!("Polar !=", inp, q != r, !eq);
        is!("Polar partial_cmp", inp, q.partial_cmp(&r), ord);
        is!("Polar < <= > >=", inp, (q < r, q <= r, q > r, q >= r), (ord == Some(Ordering::Less), ord.map_or(false, |o| o.is_le()), ord == Some(Ordering::Greater), ord.map_or(false, |o| o.is_ge())));
        is!("Polar clone", inp, { let m = Clone::clone(&q); same(m.mag, a) && same(m.ang, b) }, true);
    }
    is!("Cartesian default", || "".to_string(), { let m = Cartesian::<$T>::default(); same(m.re, z) && same(m.im, z) }, true);
    is!("Polar default", || "".to_string(), { let m = Polar::<$T>::default(); same(m.mag, z) && same(m.ang, z) }, true);
}} }
#[cfg(feature = "c21")]
pub fn c21(c: &mut Ctx) {
    use std::cmp::Ordering;
    m21!(c, f32, vec![f32::NAN, -0.0, 0.0, f32::INFINITY, -f32::INFINITY, f32::MIN_POSITIVE, f32::EPSILON]);
    m21!(c, f64, vec![f64::NAN, -0.0, 0.0, f64::INFINITY, -f64::INFINITY, 1e-300, f64::EPSILON]);
    m21!(c, fixed::FixedI32<fixed::types::extra::U16>, vec![]);
    m21!(c, fixed::FixedI16<fixed::types::extra::U8>, vec![]);
    m21!(c, fixed::FixedI64<fixed::types::extra::U32>, vec![]);
}
