use mixed_num::*;
use mixed_num::traits::*;
use mixed_num::trigonometry as tr;
use replay::*;

const N: usize = 200;


macro_rules! prims { ($m:ident, $c:expr, $($x:tt)*) => {
    $m!($c, u8, $($x)*); $m!($c, u16, $($x)*); $m!($c, u32, $($x)*); $m!($c, u64, $($x)*); $m!($c, u128, $($x)*); $m!($c, usize, $($x)*);
    $m!($c, i8, $($x)*); $m!($c, i16, $($x)*); $m!($c, i32, $($x)*); $m!($c, i64, $($x)*); $m!($c, i128, $($x)*); $m!($c, isize, $($x)*);
    $m!($c, f32, $($x)*); $m!($c, f64, $($x)*);
} }
macro_rules! floats { ($m:ident, $c:expr) => { $m!($c, f32); $m!($c, f64); } }
macro_rules! ints_s { ($m:ident, $c:expr) => { $m!($c, i8); $m!($c, i16); $m!($c, i32); $m!($c, i64); $m!($c, i128); $m!($c, isize); } }
macro_rules! ints_u { ($m:ident, $c:expr) => { $m!($c, u8); $m!($c, u16); $m!($c, u32); $m!($c, u64); $m!($c, u128); $m!($c, usize); } }

macro_rules! case { ($c:expr, $T:ty, $lab:expr, [$($x:expr),*], $want:expr, $got:expr) => {{
    let lab = format!("{} for {}", $lab, stringify!($T));
    let inp = || { let mut s = String::new(); $( s.push_str(&($x).show()); s.push(' '); )* s };
    let want = $want;
    if let Some(w) = want { let g = run(&lab, &inp, || $got); exact($c, &lab, &inp, g, Some(w)); }
}} }
/// as `case`, but a panicking oracle means the call must panic
macro_rules! case_p { ($c:expr, $T:ty, $lab:expr, [$($x:expr),*], $want:expr, $got:expr) => {{
    let lab = format!("{} for {}", $lab, stringify!($T));
    let inp = || { let mut s = String::new(); $( s.push_str(&($x).show()); s.push(' '); )* s };
    let w = $want;
    let g = run(&lab, &inp, || $got); exact($c, &lab, &inp, g, w);
}} }
/// a condition on the result
macro_rules! holds { ($c:expr, $T:ty, $lab:expr, [$($x:expr),*], $got:expr, $want:expr, $ok:expr) => {{
    let lab = format!("{} for {}", $lab, stringify!($T));
    let inp = || { let mut s = String::new(); $( s.push_str(&($x).show()); s.push(' '); )* s };
    let c: &mut Ctx = $c;
    c.cases += 1;
    match run(&lab, &inp, || $got) {
        None => c.hit(false, &lab, inp(), "panic".into(), format!("{}", $want)),
        Some(g) => { if !($ok)(g) { c.hit(false, &lab, inp(), g.show(), format!("{}", $want)); } }
    }
}} }

// ------------------------------------------------------------------ C07
#[cfg(feature = "c07")]
pub fn c07(c: &mut Ctx) {
    macro_rules! pair { ($c:expr, $S:ty, $T:ty) => {{
        let p = <$T as V>::pool($c, N);
        for i in 0..p.len() {
            let a = p[i];
            let s: Option<$S> = eval(|| MixedNumConversion::<$S>::mixed_to_num(&a));
            if let Some(s) = s {
                let z: $S = 0 as $S;
                let lab = format!("Cartesian<{}>::mixed_to_num of {}", stringify!($S), stringify!($T));
                let inp = || a.show();
                judge::<$S>($c, &lab, &inp, 0.0, run(&lab, &inp, || { let r: Cartesian<$S> = a.mixed_to_num(); vec![r.re, r.im] }), Some(vec![s, z]));
                case!($c, $T, format!("mixed_from_num(Cartesian<{}>)", stringify!($S)), [s], eval(|| <$T>::mixed_from_num(s)),
                    <$T as MixedNumConversion<Cartesian<$S>>>::mixed_from_num(Cartesian::new(s, 7u8 as $S)));
            }
        }
    }} }
    macro_rules! tgt { ($c:expr, $T:ty) => { prims!(pair, $c, $T); } }
    macro_rules! tgtx { ($c:expr, $T:ty, $b:ident, $f:expr) => { prims!(pair, $c, $T); } }
    floats!(tgt, c);
    fx_signed!(tgtx, c);
    fx_unsigned!(tgtx, c);
}

// ------------------------------------------------------------------ C08
#[cfg(feature = "c08")]
pub fn c08(c: &mut Ctx) {
    macro_rules! pair { ($c:expr, $S:ty, $T:ty) => {{
        for x in <$S as V>::pool($c, N) {
            case!($c, $T, format!("mixed_from_num({})", stringify!($S)), [x], Some(x as $T), <$T as MixedNumConversion<$S>>::mixed_from_num(x));
            case!($c, $T, format!("{}::mixed_to_num", stringify!($S)), [x], Some(x as $T), <$S as MixedNumConversion<$T>>::mixed_to_num(&x));
        }
    }} }
    macro_rules! tgt { ($c:expr, $T:ty, $($x:tt)*) => { prims!(pair, $c, $T); } }
    prims!(tgt, c, );
    macro_rules! nans { ($c:expr, $T:ty, $($x:tt)*) => {{
        for x in [f64::NAN, f64::INFINITY, f64::NEG_INFINITY] {
            case!($c, $T, "mixed_from_num(f64)", [x], Some(x as $T), <$T as MixedNumConversion<f64>>::mixed_from_num(x));
            let y = x as f32;
            case!($c, $T, "mixed_from_num(f32)", [y], Some(y as $T), <$T as MixedNumConversion<f32>>::mixed_from_num(y));
        }
    }} }
    prims!(nans, c, );
}

// ------------------------------------------------------------------ C09
#[cfg(feature = "c09")]
mod o9 {
    /// what the property says: bits of the fixed value, or None for a panic
    pub trait Src { fn fxbits(self, frac: u32, lo: i128, hi: i128) -> Option<i128>; fn back(bits: i128, frac: u32) -> Option<Self> where Self: Sized; }
    macro_rules! si { ($($T:ty)*) => {$( impl Src for $T {
        fn fxbits(self, frac: u32, lo: i128, hi: i128) -> Option<i128> {
            let v = i128::try_from(self).ok()?;
            if v > (hi >> frac) || v < -((-lo) >> frac) { return None; }
            Some(v << frac)
        }
        fn back(bits: i128, frac: u32) -> Option<$T> { <$T>::try_from(bits >> frac).ok() }
    } )*} }
    si!(u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize);
    macro_rules! sf { ($T:ty) => { impl Src for $T {
        fn fxbits(self, frac: u32, lo: i128, hi: i128) -> Option<i128> {
            let s = (self as f64) * (2.0f64).powi(frac as i32);
            if !s.is_finite() { return None; }
            let r = s.round_ties_even();
            if r.abs() > 1e30 { return None; }
            let v = r as i128;
            if v < lo || v > hi { None } else { Some(v) }
        }
        fn back(bits: i128, frac: u32) -> Option<$T> { Some(bits as $T / (2.0 as $T).powi(frac as i32)) }
    } } }
    sf!(f32); sf!(f64);
}
#[cfg(feature = "c09")]
pub fn c09(c: &mut Ctx) {
    use o9::Src;
    macro_rules! pair { ($c:expr, $S:ty, $T:ty, $B:ident, $f:expr) => {{
        let (lo, hi) = ($B::MIN as i128, $B::MAX as i128);
        let mut pool = <$S as V>::pool($c, N);
        for t in <$T as V>::pool($c, N / 4) { if let Some(x) = <$S as Src>::back(t.to_bits() as i128, $f) { pool.push(x); } }
        for x in pool {
            case_p!($c, $T, format!("mixed_from_num({})", stringify!($S)), [x], <$S as Src>::fxbits(x, $f, lo, hi).map(|b| <$T>::from_bits(b as $B)), <$T as MixedNumConversion<$S>>::mixed_from_num(x));
        }
        for t in <$T as V>::pool($c, N) {
            case_p!($c, $T, format!("mixed_to_num::<{}>", stringify!($S)), [t], <$S as Src>::back(t.to_bits() as i128, $f), <$T as MixedNumConversion<$S>>::mixed_to_num(&t));
        }
    }} }
    macro_rules! tgt { ($c:expr, $T:ty, $B:ident, $f:expr) => { prims!(pair, $c, $T, $B, $f); } }
    fx_signed!(tgt, c);
    fx_unsigned!(tgt, c);
}

// ------------------------------------------------------------------ C10
#[cfg(feature = "c10")]
pub fn c10(c: &mut Ctx) {
    let mut exps: Vec<u32> = vec![0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257, 300];
    for h in c.bits.iter().map(|b| *b as f64).chain(c.hints.iter().cloned()).collect::<Vec<_>>() {
        for d in -1..2 { let e = h + d as f64; if e >= 0.0 && e < 3000.0 && !exps.contains(&(e as u32)) && exps.len() < 60 { exps.push(e as u32); } }
    }
    macro_rules! int { ($c:expr, $T:ty) => {{
        for x in <$T as V>::pool($c, N) { for &n in &exps {
            let want = { let mut t: Option<$T> = Some(1); for _ in 0..n { t = t.and_then(|v| v.checked_mul(x)); } t };
            case!($c, $T, format!("mixed_powi({})", n), [x], want, x.mixed_powi(n as i32));
            case!($c, $T, format!("trigonometry::powi({})", n), [x], want, tr::powi(x, n as usize));
        } }
    }} }
    ints_s!(int, c); ints_u!(int, c);
    macro_rules! fxx { ($c:expr, $T:ty, $B:ident, $f:expr) => {{
        let one = if (1i128 << $f) <= $B::MAX as i128 { Some(<$T>::from_bits((1i128 << $f) as $B)) } else { None };
        for x in <$T as V>::pool($c, N) { for &n in &exps {
            let want = { let mut t: Option<$T> = if n == 0 { one } else { Some(x) }; for _ in 1..n { t = t.and_then(|v| v.checked_mul(x)); } t };
            case!($c, $T, format!("mixed_powi({})", n), [x], want, x.mixed_powi(n as i32));
            case!($c, $T, format!("trigonometry::powi({})", n), [x], want, tr::powi(x, n as usize));
        } }
    }} }
    fx_signed!(fxx, c); fx_unsigned!(fxx, c);
    macro_rules! fl { ($c:expr, $T:ident) => {{
        for x in <$T as V>::pool($c, N) { for n in exps.iter().map(|&n| n as i32).chain([-1, -2, -3, -4, -5, -7, -8, -31]) {
            let p = { let mut t = 1.0f64; for _ in 0..n.abs() { t *= x as f64; } if n < 0 { 1.0 / t } else { t } };
            if !p.is_finite() || p.abs() > $T::MAX as f64 / 4.0 || p.abs() < $T::MIN_POSITIVE as f64 * 1e6 || (x as f64).powi(n.abs()).abs() > $T::MAX as f64 / 4.0 || (x as f64).powi(n.abs()).abs() < $T::MIN_POSITIVE as f64 * 1e6 {
                if !(x == 0.0 && n >= 0) { continue; }
            }
            let tol = ($T::EPSILON as f64) * 4.0 * (n.abs() as f64 + 1.0) * p.abs();
            holds!($c, $T, format!("mixed_powi({})", n), [x], x.mixed_powi(n), format!("{:e}", p), |g: $T| ((g as f64) - p).abs() <= tol);
            if n >= 0 { holds!($c, $T, format!("trigonometry::powi({})", n), [x], tr::powi(x, n as usize), format!("{:e}", p), |g: $T| ((g as f64) - p).abs() <= tol); }
        } }
    }} }
    floats!(fl, c);
}

// ------------------------------------------------------------------ C11
#[cfg(feature = "c11")]
pub fn c11(c: &mut Ctx) {
    macro_rules! fxx { ($c:expr, $T:ty, $B:ident, $f:expr) => {{
        let p = (std::f64::consts::PI * (2.0f64).powi($f)).round_ties_even() as i128;
        if p > 0 && p <= $B::MAX as i128 {
            let mut pool = <$T as V>::pool($c, N);
            for k in -9i128..10 { for d in -2i128..3 { let b = k * p + d; if let Ok(b) = $B::try_from(b) { pool.push(<$T>::from_bits(b)); } } }
            for x in pool {
                // one step per period: keep the number of wraps bounded
                if (x.to_bits() as i128).abs() / p > 3_000_000 { continue; }
                let xb = x.to_bits() as i128;
                let m = 2 * p;
                let want = (xb + p).rem_euclid(m) - p;
                case!($c, $T, "mixed_wrap_phase", [x], Some(<$T>::from_bits(want as $B)), x.mixed_wrap_phase());
                case!($c, $T, "trigonometry::wrap_phase", [x], Some(<$T>::from_bits(want as $B)), tr::wrap_phase(x));
            }
        }
    }} }
    fx_signed!(fxx, c);
    macro_rules! fl { ($c:expr, $T:ident) => {{
        let pi = std::f64::consts::PI as $T;
        let mut pool = <$T as V>::pool($c, N);
        for k in -60i32..61 { let v = pi * k as $T; for v in [v, v + v * $T::EPSILON, v - v * $T::EPSILON] { pool.push(v); } }
        for s in [3e3, 1e4, 9.9e4, 1e5] { pool.push(s as $T); pool.push(-s as $T); }
        for x in pool {
            if !(x.abs() <= 1e5) { continue; }
            let m = 2.0 * pi as f64;
            let inr = -pi <= x && x < pi;
            let steps = x.abs() as f64 / m + 1.0;
            let tol = 4.0 * $T::EPSILON as f64 * x.abs() as f64 * steps;
            let ok = |g: $T| {
                if inr { return g.to_bits() == x.to_bits(); }
                if !(-pi <= g && g < pi) { return false; }
                let d = (x as f64 - g as f64) / m;
                (d - d.round()).abs() * m <= tol.max(1e-12) || tol > m / 2.0
            };
            holds!($c, $T, "mixed_wrap_phase", [x], x.mixed_wrap_phase(), "a value in [-pi, pi) congruent to the input", ok);
            holds!($c, $T, "trigonometry::wrap_phase", [x], tr::wrap_phase(x), "a value in [-pi, pi) congruent to the input", ok);
        }
    }} }
    floats!(fl, c);
}

// ------------------------------------------------------------------ C12
#[cfg(feature = "c12")]
const NS: [usize; 12] = [2, 3, 4, 5, 6, 7, 8, 10, 16, 32, 64, 128];
#[cfg(feature = "c12")]
pub fn c12(c: &mut Ctx) {
    macro_rules! go { ($c:expr, $T:ty, $x:expr, $abs:expr, $n:expr, $tol:expr) => {{
        let (x, n) = ($x, $n);
        let s = x.f().abs().sqrt();
        let tol: f64 = $tol(s);
        let ok = |g: $T| if x.f() == 0.0 { g.f() == 0.0 } else { (g.f() - s).abs() <= tol };
        holds!($c, $T, format!("niirf({} iterations)", n), [x], tr::sqrt::niirf(x, n), format!("{:e} within {:e}", s, tol), ok);
        if n == 2 {
            holds!($c, $T, "mixed_niirf", [x], x.mixed_niirf(), format!("{:e} within {:e}", s, tol), ok);
            if let Some(w) = eval(|| tr::sqrt::niirf($abs, 2)) {
                case!($c, $T, "niirf of the negated input", [x], Some(w), tr::sqrt::niirf(x, 2));
            }
        }
    }} }
    macro_rules! fl { ($c:expr, $T:ident) => {{
        for x in <$T as V>::pool($c, N) { for n in NS { go!($c, $T, x, x.abs(), n, |s: f64| s * (0.006 + 64.0 * $T::EPSILON as f64)); } }
    }} }
    floats!(fl, c);
    macro_rules! fxs { ($c:expr, $T:ty, $B:ident, $f:expr) => {{
        if $f >= 8 { for x in <$T as V>::pool($c, N * 4) { if x == <$T>::MIN { continue; } for n in NS {
            go!($c, $T, x, x.abs(), n, |s: f64| s * 0.006 + ulps(s, $f));
        } } }
    }} }
    fx_signed!(fxs, c);
    macro_rules! fxu { ($c:expr, $T:ty, $B:ident, $f:expr) => {{
        if $f >= 8 { for x in <$T as V>::pool($c, N * 4) { for n in NS { go!($c, $T, x, x, n, |s: f64| s * 0.006 + ulps(s, $f)); } } }
    }} }
    fx_unsigned!(fxu, c);
}
#[cfg(feature = "c12")]
fn ulps(s: f64, f: u32) -> f64 {
    // a few units in the last place of the normalised value, scaled back
    let d = (2.0f64).powi(-(f as i32));
    10.0 * d * s.max(1.0) * 2.0 + 2.0 * d
}

// ------------------------------------------------------------------ C13
#[cfg(feature = "c13")]
pub fn c13(c: &mut Ctx) {
    macro_rules! go { ($c:expr, $T:ty, $x:expr, $pi:expr, $ts:expr, $tc:expr, $smax:expr) => {{
        let x = $x;
        let (s, k) = (x.f().sin(), x.f().cos());
        if x.f().abs() <= $pi { holds!($c, $T, "trigonometry::sin", [x], tr::sin(x), format!("{:e}", s), |g: $T| (g.f() - s).abs() <= $ts); }
        if x.f().abs() <= $smax { holds!($c, $T, "trigonometry::cos", [x], tr::cos(x), format!("{:e}", k), |g: $T| (g.f() - k).abs() <= $tc); }
    }} }
    macro_rules! fl { ($c:expr, $T:ident) => {{
        let mut pool = <$T as V>::pool($c, N);
        for i in -2000..2001 { pool.push((std::f64::consts::PI * i as f64 / 2000.0) as $T); }
        for x in pool { go!($c, $T, x, std::f64::consts::PI as $T as f64, 4e-6 + 16.0 * $T::EPSILON as f64, 4e-6 + $T::EPSILON as f64 * (32.0 + (x.f().abs() + 4.0) * (x.f().abs() + 4.0)), 1000.0); }
    }} }
    floats!(fl, c);
    macro_rules! fxs { ($c:expr, $T:ty, $B:ident, $f:expr) => {{
        if $f >= 12 && $B::BITS - $f >= 21 {
            let d = (2.0f64).powi(-($f as i32));
            let p = (std::f64::consts::PI / d).round();
            let mut pool = <$T as V>::pool($c, N);
            for i in -2000..2001 { pool.push(<$T>::from_bits((p * i as f64 / 2000.0) as $B)); }
            for x in pool { go!($c, $T, x, p * d, 4e-6 + 40.0 * d, 4e-6 + d * (60.0 + x.f().abs()), 10000.0); }
        }
    }} }
    fx_signed!(fxs, c);
}

// ------------------------------------------------------------------ C14
#[cfg(feature = "c14")]
pub fn c14(c: &mut Ctx) {
    macro_rules! go { ($c:expr, $T:ty, $y:expr, $x:expr, $tol:expr, $pi:expr, $half:expr) => {{
        let (y, x) = ($y, $x);
        let z = <$T>::mixed_zero();
        let t = y.f().atan2(x.f());
        if y == z {
            case!($c, $T, "atan2", [y, x], Some(if x < z { $pi } else { z }), tr::atan::atan2(y, x));
        } else if x == z {
            case!($c, $T, "atan2", [y, x], Some(if y < z { -$half } else { $half }), tr::atan::atan2(y, x));
        } else {
            holds!($c, $T, "atan2", [y, x], tr::atan::atan2(y, x), format!("{:e} within {:e}", t, $tol), |g: $T| (g.f() - t).abs() <= $tol);
        }
        if let Some(w) = eval(|| tr::atan::atan2(y, x)) { case!($c, $T, "mixed_atan2_poly", [y, x], Some(w), y.mixed_atan2_poly(x)); }
        if let Some(w) = eval(|| tr::atan::atan2(y, <$T>::mixed_one())) { case!($c, $T, "atan", [y], Some(w), tr::atan::atan(y)); }
    }} }
    macro_rules! fl { ($c:expr, $T:ident) => {{
        let pool = <$T as V>::pool($c, N);
        let (lo, hi) = ($T::MIN_POSITIVE.sqrt() * 1e4, $T::MAX.sqrt() / 2.0);
        for _ in 0..20000 {
            let (mut y, mut x) = (pick($c, &pool), pick($c, &pool));
            if $c.next() % 8 == 0 { x = y * if $c.next() % 2 == 0 { 1.0 } else { -1.0 }; }
            if $c.next() % 16 == 0 { y = 0.0; }
            if $c.next() % 16 == 0 { x = 0.0; }
            let (a, b) = (y.abs(), x.abs());
            if (a != 0.0 && (a < lo || a > hi)) || (b != 0.0 && (b < lo || b > hi)) { continue; }
            if a != 0.0 && b != 0.0 && (a * b < $T::MIN_POSITIVE * 1e4) { continue; }
            if x == 0.0 && x.is_sign_negative() { continue; }
            let pi = std::f64::consts::PI as $T;
            go!($c, $T, y, x, 0.0052 + 16.0 * $T::EPSILON as f64, pi, pi / 2.0);
        }
    }} }
    floats!(fl, c);
    macro_rules! fxs { ($c:expr, $T:ty, $B:ident, $f:expr) => {{
        let d = (2.0f64).powi(-($f as i32));
        let p = (std::f64::consts::PI / d).round_ties_even();
        if $f >= 8 && p <= $B::MAX as f64 {
            let hi = ($B::MAX as f64 * d).sqrt();
            let pool = <$T as V>::pool($c, N);
            let pi = <$T>::from_bits(p as $B);
            for _ in 0..20000 {
                let (mut y, mut x) = (pick($c, &pool), pick($c, &pool));
                if $c.next() % 8 == 0 { x = if $c.next() % 2 == 0 || y == <$T>::MIN { y } else { -y }; }
                if $c.next() % 16 == 0 { y = <$T>::from_bits(0); }
                if $c.next() % 16 == 0 { x = <$T>::from_bits(0); }
                let (a, b) = (y.f().abs(), x.f().abs());
                if y == <$T>::MIN || x == <$T>::MIN { continue; }
                let m = a.max(b);
                if a * a + b * b >= hi * hi || m * m < 64.0 * d { if a != 0.0 && b != 0.0 { continue; } }
                // 1.6 / (m*m) ulp from numerator and denominator
                go!($c, $T, y, x, 0.0052 + 8.0 * d + 4.0 * d / (m * m), pi, pi / <$T>::from_bits(((2i128) << $f) as $B));
            }
        }
    }} }
    fx_signed!(fxs, c);
}

// ------------------------------------------------------------------ C15
#[cfg(feature = "c15")]
pub fn c15(c: &mut Ctx) {
    macro_rules! common { ($c:expr, $T:ty, $one:expr, $mone:expr) => {{
        for x in <$T as V>::pool($c, N) {
            let z = <$T>::mixed_zero();
            let want: Option<$T> = if x < z { $mone } else { $one };
            case!($c, $T, "mixed_sign", [x], want, x.mixed_sign());
            case!($c, $T, "trigonometry::sign", [x], want, tr::sign(x));
            let b = |v: bool| v as u8;
            if x != z {
                case!($c, $T, "mixed_is_negative", [x], Some(b(x < z)), b(x.mixed_is_negative()));
                case!($c, $T, "mixed_is_positive", [x], Some(b(x > z)), b(x.mixed_is_positive()));
            }
        }
        case!($c, $T, "mixed_max_value", [0u8], Some(<$T>::MAX), <$T as MixedReal>::mixed_max_value());
        case!($c, $T, "mixed_min_value", [0u8], Some(<$T>::MIN), <$T as MixedReal>::mixed_min_value());
    }} }
    macro_rules! su { ($c:expr, $T:ty) => {{
        common!($c, $T, Some(1 as $T), None);
        for x in <$T as V>::pool($c, N) {
            case!($c, $T, "mixed_abs", [x], Some(x), x.mixed_abs());
            case!($c, $T, "mixed_is_negative", [x], Some(0u8), x.mixed_is_negative() as u8);
        }
    }} }
    macro_rules! ss { ($c:expr, $T:ty) => {{
        common!($c, $T, Some(1 as $T), Some(-1i8 as $T));
        for x in <$T as V>::pool($c, N) {
            if x != <$T>::MIN { case!($c, $T, "mixed_abs", [x], Some(if x < (0 as $T) { -x } else { x }), x.mixed_abs()); }
        }
    }} }
    ints_u!(su, c); ints_s!(ss, c); floats!(ss, c);
    macro_rules! xs { ($c:expr, $T:ty, $B:ident, $f:expr) => {{
        let one = if (1i128 << $f) <= $B::MAX as i128 { Some(<$T>::from_bits((1i128 << $f) as $B)) } else { None };
        let mone = if -(1i128 << $f) >= $B::MIN as i128 { Some(<$T>::from_bits((-(1i128 << $f)) as $B)) } else { None };
        common!($c, $T, one, mone);
        for x in <$T as V>::pool($c, N) { if x != <$T>::MIN || $B::MIN == 0 {
            let b = x.to_bits() as i128;
            case!($c, $T, "mixed_abs", [x], Some(<$T>::from_bits(if b < 0 { -b } else { b } as $B)), x.mixed_abs());
        } }
    }} }
    fx_signed!(xs, c); fx_unsigned!(xs, c);
}

// ------------------------------------------------------------------ C16
#[cfg(feature = "c16")]
pub fn c16(c: &mut Ctx) {
    macro_rules! zo { ($c:expr, $T:ty) => {{
        case!($c, $T, "mixed_zero", [0u8], Some(0 as $T), <$T>::mixed_zero());
        case!($c, $T, "mixed_one", [0u8], Some(1 as $T), <$T>::mixed_one());
    }} }
    ints_u!(zo, c); ints_s!(zo, c); floats!(zo, c);
    macro_rules! pt { ($c:expr, $T:ident) => {{
        case!($c, $T, "mixed_pi", [0u8], Some(std::$T::consts::PI), <$T>::mixed_pi());
        case!($c, $T, "mixed_tau", [0u8], Some(std::$T::consts::TAU), <$T>::mixed_tau());
    }} }
    floats!(pt, c);
    macro_rules! xs { ($c:expr, $T:ty, $B:ident, $f:expr) => {{
        let rep = |v: f64| { let r = (v * (2.0f64).powi($f)).round_ties_even(); if r <= $B::MAX as f64 && (r as i128) <= $B::MAX as i128 { Some(<$T>::from_bits(r as $B)) } else { None } };
        case!($c, $T, "mixed_zero", [0u8], rep(0.0), <$T>::mixed_zero());
        case!($c, $T, "mixed_one", [0u8], rep(1.0), <$T>::mixed_one());
        case!($c, $T, "mixed_pi", [0u8], rep(std::f64::consts::PI), <$T>::mixed_pi());
        case!($c, $T, "mixed_tau", [0u8], rep(std::f64::consts::TAU), <$T>::mixed_tau());
    }} }
    fx_signed!(xs, c); fx_unsigned!(xs, c);
}

// ------------------------------------------------------------------ C17, C18
#[cfg(feature = "c17")]
pub fn c17(c: &mut Ctx) {
    macro_rules! one { ($c:expr, $T:ident, $($m:ident = $f:path),*) => {{
        let pool = <$T as V>::pool($c, N);
        for &x in &pool { $( case!($c, $T, stringify!($m), [x], Some($f(x)), x.$m()); )* }
    }} }
    one!(c, f32, mixed_sin = libm::sinf, mixed_cos = libm::cosf, mixed_tan = libm::tanf, mixed_asin = libm::asinf, mixed_acos = libm::acosf, mixed_atan = libm::atanf,
        mixed_sinh = libm::sinhf, mixed_cosh = libm::coshf, mixed_tanh = libm::tanhf, mixed_asinh = libm::asinhf, mixed_acosh = libm::acoshf, mixed_atanh = libm::atanhf,
        mixed_exp = libm::expf, mixed_exp2 = libm::exp2f, mixed_exp10 = libm::exp10f, mixed_log = libm::logf, mixed_log2 = libm::log2f, mixed_log10 = libm::log10f,
        mixed_sqrt = libm::sqrtf, mixed_cbrt = libm::cbrtf, mixed_ceil = libm::ceilf, mixed_floor = libm::floorf);
    one!(c, f64, mixed_sin = libm::sin, mixed_cos = libm::cos, mixed_tan = libm::tan, mixed_asin = libm::asin, mixed_acos = libm::acos, mixed_atan = libm::atan,
        mixed_sinh = libm::sinh, mixed_cosh = libm::cosh, mixed_tanh = libm::tanh, mixed_asinh = libm::asinh, mixed_acosh = libm::acosh, mixed_atanh = libm::atanh,
        mixed_exp = libm::exp, mixed_exp2 = libm::exp2, mixed_exp10 = libm::exp10, mixed_log = libm::log, mixed_log2 = libm::log2, mixed_log10 = libm::log10,
        mixed_sqrt = libm::sqrt, mixed_cbrt = libm::cbrt, mixed_ceil = libm::ceil, mixed_floor = libm::floor);
    macro_rules! two { ($c:expr, $T:ident, $a:path, $p:path, $s:path, $k:path) => {{
        let pool = <$T as V>::pool($c, N);
        for &x in &pool {
            case!($c, $T, "mixed_sincos.0", [x], Some($s(x)), x.mixed_sincos().0);
            case!($c, $T, "mixed_sincos.1", [x], Some($k(x)), x.mixed_sincos().1);
            for _ in 0..20 {
                let y = pick($c, &pool);
                case!($c, $T, "mixed_atan2", [x, y], Some($a(x, y)), x.mixed_atan2(y));
                case!($c, $T, "mixed_pow", [x, y], Some($p(x, y)), x.mixed_pow(y));
            }
        }
    }} }
    two!(c, f32, libm::atan2f, libm::powf, libm::sinf, libm::cosf);
    two!(c, f64, libm::atan2, libm::pow, libm::sin, libm::cos);
}

#[cfg(feature = "c18")]
pub fn c18(c: &mut Ctx) {
    macro_rules! go { ($c:expr, $T:ident, $l:path, $e:path) => {{
        let mut pool = <$T as V>::pool($c, N * 10);
        for i in -2000..2000 { pool.push(i as $T / 16.0); }
        for x in pool {
            case!($c, $T, "mixed_mag2db", [x], Some(20.0 * $l(x)), x.mixed_mag2db());
            case!($c, $T, "mixed_pow2db", [x], Some(10.0 * $l(x)), x.mixed_pow2db());
            case!($c, $T, "mixed_db2mag", [x], Some($e(x / 20.0)), x.mixed_db2mag());
            case!($c, $T, "mixed_db2pow", [x], Some($e(x / 10.0)), x.mixed_db2pow());
        }
    }} }
    go!(c, f32, libm::log10f, libm::exp10f);
    go!(c, f64, libm::log10, libm::exp10);
}

// ------------------------------------------------------------------ C19
#[cfg(feature = "c19")]
pub fn c19(c: &mut Ctx) {
    macro_rules! xs { ($c:expr, $T:ty, $B:ident, $f:expr) => {{
        let pool = <$T as V>::pool($c, N);
        for &x in &pool {
            // cordic's range reduction is a loop with one step per period
            if x.f().abs() < 2000.0 {
                case!($c, $T, "mixed_sin", [x], eval(|| cordic::sin(x)), x.mixed_sin());
                case!($c, $T, "mixed_cos", [x], eval(|| cordic::cos(x)), x.mixed_cos());
                case!($c, $T, "mixed_sincos.0", [x], eval(|| cordic::sin(x)), x.mixed_sincos().0);
                case!($c, $T, "mixed_sincos.1", [x], eval(|| cordic::cos(x)), x.mixed_sincos().1);
            }
            if x.f().abs() <= 1.0 {
                case!($c, $T, "mixed_asin", [x], eval(|| cordic::asin(x)), x.mixed_asin());
                case!($c, $T, "mixed_acos", [x], eval(|| cordic::acos(x)), x.mixed_acos());
            }
            case!($c, $T, "mixed_atan", [x], eval(|| cordic::atan(x)), x.mixed_atan());
            if x.f().abs() < 20.0 { case!($c, $T, "mixed_exp", [x], eval(|| cordic::exp(x)), x.mixed_exp()); }
            case!($c, $T, "mixed_sqrt", [x], eval(|| tr::sqrt::niirf(x, 2)), x.mixed_sqrt());
            case!($c, $T, "mixed_niirf", [x], eval(|| tr::sqrt::niirf(x, 2)), x.mixed_niirf());
            for _ in 0..20 {
                let y = pick($c, &pool);
                case!($c, $T, "mixed_atan2", [x, y], eval(|| cordic::atan2(x, y)), x.mixed_atan2(y));
                case!($c, $T, "mixed_atan2_poly", [x, y], eval(|| tr::atan::atan2(x, y)), x.mixed_atan2_poly(y));
            }
        }
    }} }
    fx_signed!(xs, c);
    macro_rules! xu { ($c:expr, $T:ty, $B:ident, $f:expr) => {{
        for x in <$T as V>::pool($c, N) {
            case!($c, $T, "mixed_sqrt", [x], eval(|| tr::sqrt::niirf(x, 2)), x.mixed_sqrt());
            case!($c, $T, "mixed_niirf", [x], eval(|| tr::sqrt::niirf(x, 2)), x.mixed_niirf());
        }
    }} }
    fx_unsigned!(xu, c);
}
