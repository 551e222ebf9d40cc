//! C20: the text of a complex number, put together from the texts of its components.
use mixed_num::*;
use replay::*;

fn text(c: &mut Ctx, label: &str, inp: String, got: Option<String>, want: String) {
    c.cases += 1;
    match got {
        Some(g) if g == want => {}
        g => c.hit(false, label, inp, g.map(|x| format!("{:?}", x)).unwrap_or("panic".into()), format!("{:?}", want)),
    }
}

/// precisions and widths tried: small ones and those near a constant of the failed obligation
fn sizes(c: &Ctx) -> Vec<usize> {
    let mut v: Vec<usize> = vec![0, 1, 2, 7, 12, 20, 40];
    for h in c.bits.iter().chain(c.hints.iter().map(|h| *h as i128).collect::<Vec<_>>().iter()) { for d in -1..2 { if *h + d >= 0 && *h + d < 200 { v.push((*h + d) as usize); } } }
    v
}

/// the sign, the prefix and the component without either
fn part(neg: bool, force: bool, prefix: &str, body: String) -> String {
    format!("{}{}{}", if neg { "-" } else if force { "+" } else { "" }, prefix, body)
}

macro_rules! forms { ($c:expr, $T:ty, $re:expr, $im:expr, $zero:expr, $min:expr, $negz:expr; $( [$($f:literal)*] [$($b:literal)*] $px:literal ),*) => {{
    let (re, im): ($T, $T) = ($re, $im);
    if !($min(re) || $min(im) || $negz(re) || $negz(im)) {
        let abs = |x: $T| if x < $zero { $zero - x } else { x };
        let z = Cartesian::<$T> { re, im };
        let inp = || format!("{} {}", re.show(), im.show());
        $( 
            let want = |spec: &str, force: bool, p: &str, a: String, b: String| part(re < $zero, force, p, a) + &part(im < $zero, true, p, b) + "i";
            $( {
                let spec: &str = $f;
                let lab = format!("format {} of Cartesian<{}>", spec, stringify!($T));
                let w = want(spec, spec.contains('+'), if spec.contains('#') { $px } else { "" }, format!($b, abs(re)), format!($b, abs(im)));
                let g = run(&lab, &inp, || format!($f, z));
                text($c, &lab, inp(), g, w);
            } )*
        )*
    }
}} }

pub fn c20(c: &mut Ctx) {
    macro_rules! float { ($c:expr, $T:ty) => {{
        let p = <$T as V>::pool($c, 300);
        for _ in 0..pairs($c) { let (a, b) = (pick($c, &p), pick($c, &p));
            forms!($c, $T, a, b, 0.0, |_x: $T| false, |x: $T| x == 0.0 && x.is_sign_negative();
                ["{}"]["{}"] "", ["{:+}"]["{}"] "", ["{:.0}"]["{:.0}"] "", ["{:.3}"]["{:.3}"] "", ["{:+.5}"]["{:.5}"] "", ["{:e}"]["{:e}"] "", ["{:.2e}"]["{:.2e}"] "",
                ["{:+e}"]["{:e}"] "", ["{:E}"]["{:E}"] "", ["{:+.4E}"]["{:.4E}"] "");
            polar($c, a, b, stringify!($T));
            if !(a == 0.0 && a.is_sign_negative() || b == 0.0 && b.is_sign_negative()) && $c.next() % 8 == 0 { prec($c, a, b, 0.0, stringify!($T)); }
        }
    }} }
    float!(c, f32); float!(c, f64);
    macro_rules! int { ($c:expr, $($T:ty)*) => {$( {
        let p = <$T as V>::pool($c, 300);
        for _ in 0..pairs($c) { let (a, b) = (pick($c, &p), pick($c, &p));
            forms!($c, $T, a, b, 0, |x: $T| x < 0 && x == <$T>::MIN, |_x: $T| false;
                ["{}"]["{}"] "", ["{:+}"]["{}"] "", ["{:.3}"]["{:.3}"] "", ["{:e}"]["{:e}"] "", ["{:E}"]["{:E}"] "", ["{:.1e}"]["{:.1e}"] "",
                ["{:x}"]["{:x}"] "0x", ["{:#x}"]["{:x}"] "0x", ["{:+#x}"]["{:x}"] "0x", ["{:X}"]["{:X}"] "0x", ["{:#X}"]["{:X}"] "0x", ["{:+X}"]["{:X}"] "0x",
                ["{:o}"]["{:o}"] "0o", ["{:#o}"]["{:o}"] "0o", ["{:+o}"]["{:o}"] "0o", ["{:b}"]["{:b}"] "0b", ["{:#b}"]["{:b}"] "0b", ["{:+#b}"]["{:b}"] "0b");
            polar($c, a, b, stringify!($T));
        }
    } )*} }
    int!(c, i8 i16 i32 i64 i128 u8 u32 u64);
    macro_rules! fx { ($c:expr, $T:ty, $B:ident, $f:expr) => {{
        let p = <$T as V>::pool($c, 200);
        let zero = <$T>::from_bits(0);
        for _ in 0..pairs($c) / 4 { let (a, b) = (pick($c, &p), pick($c, &p));
            forms!($c, $T, a, b, zero, |x: $T| x < zero && x == <$T>::MIN, |_x: $T| false;
                ["{}"]["{}"] "", ["{:+}"]["{}"] "", ["{:.3}"]["{:.3}"] "", ["{:+.1}"]["{:.1}"] "", ["{:x}"]["{:x}"] "0x", ["{:#x}"]["{:x}"] "0x", ["{:.2x}"]["{:.2x}"] "0x",
                ["{:#X}"]["{:X}"] "0x", ["{:o}"]["{:o}"] "0o", ["{:+#o}"]["{:o}"] "0o", ["{:b}"]["{:b}"] "0b", ["{:#b}"]["{:b}"] "0b");
            polar($c, a, b, stringify!($T));
        }
    }} }
    fx_signed!(fx, c);
    fx_unsigned!(fx, c);
}

fn prec<T: V + std::fmt::Display + MixedReal + Copy + PartialOrd + MixedZero + MixedNum + std::ops::Sub<Output = T>>(c: &mut Ctx, re: T, im: T, zero: T, t: &str) where Cartesian<T>: std::fmt::Display {
    let abs = |x: T| if x < zero { zero - x } else { x };
    let z = Cartesian::<T> { re, im };
    for n in sizes(c) {
        let lab = format!("format {{:.{}}} of Cartesian<{}>", n, t);
        let inp = || format!("{} {}", re.show(), im.show());
        let w = part(re < zero, false, "", format!("{:.*}", n, abs(re))) + &part(im < zero, true, "", format!("{:.*}", n, abs(im))) + "i";
        text(c, &lab, inp(), run(&lab, &inp, || format!("{:.*}", n, z)), w);
    }
}

fn polar<T: V + std::fmt::Display + MixedReal>(c: &mut Ctx, a: T, b: T, t: &str) where Polar<T>: std::fmt::Display {
    let z = Polar::<T> { mag: a, ang: b };
    let lab = format!("format {{}} of Polar<{}>", t);
    let inp = || format!("{} {}", a.show(), b.show());
    text(c, &lab, inp(), run(&lab, &inp, || format!("{}", z)), format!("{}\u{2220}{}", a, b));
}
