//! Replay of failed obligations on the real crate.  Independent of the verifier: the oracles
//! below recompute each answer with plain arithmetic of the type, or with exact integers.
use std::fmt::Debug;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub struct Ctx {
    pub seed: u64,
    pub hints: Vec<f64>,
    pub bits: Vec<i128>,
    pub hits: usize,
    pub soft: usize,
    pub cases: u64,
    pub front: usize,
    pub labels: std::collections::BTreeMap<String, (u32, u32)>,
}

impl Ctx {
    pub fn next(&mut self) -> u64 {
        let mut x = self.seed;
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        self.seed = x;
        x.wrapping_mul(0x2545F4914F6CDD1D)
    }
    /// uniform in [0,1)
    pub fn unit(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn hit(&mut self, soft: bool, label: &str, input: String, got: String, want: String) {
        let e = self.labels.entry(label.to_string()).or_insert((0, 0));
        if soft { e.1 += 1; self.soft += 1; if e.1 > 2 { return; } } else { e.0 += 1; self.hits += 1; if e.0 > 2 { return; } }
        println!("MISMATCH {} case={} input={} got={} want={}", if soft { "soft" } else { "hard" }, label, input, got, want);
    }
}

pub fn eval<R>(f: impl FnOnce() -> R) -> Option<R> {
    catch_unwind(AssertUnwindSafe(f)).ok()
}

use std::sync::Mutex;
use std::sync::atomic::{AtomicU64, Ordering};
static SEQ: AtomicU64 = AtomicU64::new(0);
static NOW: Mutex<Option<(String, String)>> = Mutex::new(None);

/// Evaluate the code under test, with a watchdog on termination.
pub fn run<R>(label: &str, input: &dyn Fn() -> String, f: impl FnOnce() -> R) -> Option<R> {
    SEQ.fetch_add(1, Ordering::Relaxed);
    *NOW.lock().unwrap() = Some((label.to_string(), input()));
    let r = eval(f);
    *NOW.lock().unwrap() = None;
    r
}

/// A call under test that does not return within the limit is reported and ends the replay; an
/// oracle that does not return just ends it.
pub fn watchdog() {
    std::thread::spawn(|| {
        let mut last = 0;
        let mut same = 0;
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let s = SEQ.load(Ordering::Relaxed);
            if s != last { last = s; same = 0; continue; }
            same += 1;
            if same < 20 { continue; }
            match NOW.lock().unwrap().clone() {
                Some((l, i)) => {
                    println!("MISMATCH hard case={} input={} got=no return within 10 s want=a result", l, i);
                    println!("DONE cases={} hard=1 soft=0", s);
                }
                None => println!("DONE cases={} hard=0 soft=0", s),
            }
            std::process::exit(0);
        }
    });
}

/// A pool element; where the verifier left hints, the values made from them half of the time.
pub fn pick<T: V>(c: &mut Ctx, p: &[T]) -> T {
    let n = if c.front > 0 && c.front < p.len() && c.next() % 2 == 0 { c.front } else { p.len() };
    let i = c.next() as usize % n;
    p[i]
}
pub fn pairs(c: &Ctx) -> usize { if c.front > 0 { 5000 } else { 900 } }

pub trait V: Copy + Debug + 'static {
    fn pool(c: &mut Ctx, n: usize) -> Vec<Self>;
    fn f(self) -> f64;
    fn key(self) -> i128;
    fn minus(self) -> Self;
    /// distance below which a difference is rounding noise, given magnitudes involved
    fn noise(scale: f64) -> f64;
    fn show(self) -> String { format!("{:?}", self) }
}

macro_rules! v_float {
    ($T:ident, $B:ident) => {
        impl V for $T {
            fn pool(c: &mut Ctx, n: usize) -> Vec<Self> {
                let mut v: Vec<$T> = vec![];
                for h in c.hints.clone() { v.push(h as $T); v.push(-h as $T); v.push((h * 1.0000001) as $T); v.push((h * 0.9999999) as $T); }
                for h in c.bits.clone() { v.push(h as $T); }
                c.front = v.len();
                v.extend([0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 2.0, -2.0, 3.0, -7.25, 0.3, -0.1, 1e-3, 100.5, -3e4, 1e9, -1e-9,
                                          $T::MAX, $T::MIN, $T::MIN_POSITIVE]);
                for i in 0..n {
                    let u = c.unit() * 2.0 - 1.0;
                    v.push(match i % 4 { 0 => (u * 10.0) as $T, 1 => u as $T, 2 => (u * 1000.0) as $T, _ => (u * (2.0f64).powi((c.next() % 40) as i32 - 20)) as $T });
                }
                v
            }
            fn f(self) -> f64 { self as f64 }
            fn minus(self) -> Self { -self }
            fn key(self) -> i128 { if self.is_nan() { i128::MAX } else if self == 0.0 { 0 } else { self.to_bits() as i128 } }
            fn noise(scale: f64) -> f64 { scale * 64.0 * $T::EPSILON as f64 }
            fn show(self) -> String { format!("{:e}{}(0x{:x})", self, stringify!($T), self.to_bits()) }
        }
    };
}
v_float!(f32, u32);
v_float!(f64, u64);

macro_rules! v_int {
    ($($T:ident)*) => {$(
        impl V for $T {
            fn pool(c: &mut Ctx, n: usize) -> Vec<Self> {
                let mut v: Vec<$T> = vec![];
                for h in c.bits.clone() { v.push(h as $T); v.push((h as $T).wrapping_add(1)); v.push((h as $T).wrapping_sub(1)); v.push((0 as $T).wrapping_sub(h as $T)); }
                for h in c.hints.clone() { v.push(h as $T); v.push((0 as $T).wrapping_sub(h as $T)); }
                c.front = v.len();
                v.extend([0, 1, 2, 3, 5, 7, 100, $T::MAX, $T::MIN, $T::MAX - 1, $T::MIN + 1, (0 as $T).wrapping_sub(1), (0 as $T).wrapping_sub(2), (0 as $T).wrapping_sub(7)]);
                for k in 0..$T::BITS { v.push((1 as $T) << k); v.push(((1 as $T) << k).wrapping_sub(1)); v.push(((1 as $T) << k).wrapping_add(1)); v.push((0 as $T).wrapping_sub((1 as $T) << k)); }
                for i in 0..n {
                    let r = ((c.next() as u128) << 64 | c.next() as u128) as $T;
                    v.push(if i % 2 == 0 { r } else { r >> (c.next() % $T::BITS as u64) });
                }
                v
            }
            fn f(self) -> f64 { self as f64 }
            fn minus(self) -> Self { (0 as $T).wrapping_sub(self) }
            fn key(self) -> i128 { self as i128 }
            fn noise(_: f64) -> f64 { 0.0 }
        }
    )*};
}
v_int!(u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize);

macro_rules! v_fx {
    ($F:ident, $B:ident, $L:ident) => {
        impl<U: fixed::types::extra::$L + 'static> V for fixed::$F<U> {
            fn pool(c: &mut Ctx, n: usize) -> Vec<Self> {
                let fr = Self::FRAC_NBITS;
                let w = $B::BITS;
                let mut b: Vec<$B> = vec![];
                for h in c.bits.clone() { for d in 0..3 { b.push((h as $B).wrapping_add(d).wrapping_sub(1)); b.push((0 as $B).wrapping_sub(h as $B)); } }
                for h in c.hints.clone() { let s = h * (2.0f64).powi(fr as i32); b.push(s as $B); b.push((-s) as $B); b.push((s as $B).wrapping_add(1)); b.push((s as $B).wrapping_sub(1)); }
                c.front = b.len();
                b.extend([0, 1, 2, 3, $B::MAX, $B::MIN, $B::MAX - 1, $B::MIN + 1, (0 as $B).wrapping_sub(1), (0 as $B).wrapping_sub(2)]);
                for k in 0..w { let p = (1 as $B) << k; b.push(p); b.push(p.wrapping_sub(1)); b.push(p.wrapping_add(1)); b.push((0 as $B).wrapping_sub(p)); }
                let one = if fr < w { (1u128 << fr) as $B } else { 1 };
                for m in [3i32, 5, 6, 7, 10, 100] { let p = one.wrapping_mul(m as $B); b.push(p); b.push((0 as $B).wrapping_sub(p)); b.push(p / 8); b.push((0 as $B).wrapping_sub(p / 8)); }
                for i in 0..n {
                    let r = c.next() as $B;
                    let u = c.unit() * 2.0 - 1.0;
                    b.push(match i % 4 { 0 => r, 1 => r >> (c.next() % w as u64), 2 => (u * 4.0 * (2.0f64).powi(fr as i32)) as $B, _ => (u * 40.0 * (2.0f64).powi(fr as i32)) as $B });
                }
                b.into_iter().map(Self::from_bits).collect()
            }
            fn f(self) -> f64 { self.to_bits() as f64 / (2.0f64).powi(Self::FRAC_NBITS as i32) }
            fn minus(self) -> Self { Self::from_bits((0 as $B).wrapping_sub(self.to_bits())) }
            fn key(self) -> i128 { self.to_bits() as i128 }
            fn noise(_: f64) -> f64 { 8.0 / (2.0f64).powi(Self::FRAC_NBITS as i32) }
            fn show(self) -> String { format!("{:?}(bits {}, {} frac)", self, self.to_bits(), Self::FRAC_NBITS) }
        }
    };
}
v_fx!(FixedI8, i8, LeEqU8);
v_fx!(FixedI16, i16, LeEqU16);
v_fx!(FixedI32, i32, LeEqU32);
v_fx!(FixedI64, i64, LeEqU64);
v_fx!(FixedU8, u8, LeEqU8);
v_fx!(FixedU16, u16, LeEqU16);
v_fx!(FixedU32, u32, LeEqU32);
v_fx!(FixedU64, u64, LeEqU64);

/// Compare component lists; `want` None = the oracle itself overflowed (outside the property).
pub fn judge<T: V>(c: &mut Ctx, label: &str, inp: &dyn Fn() -> String, scale: f64, got: Option<Vec<T>>, want: Option<Vec<T>>) {
    c.cases += 1;
    let want = match want { Some(w) => w, None => return };
    if want.iter().any(|w| !w.f().is_finite()) { return; }
    let ws = || want.iter().map(|x| x.show()).collect::<Vec<_>>().join(", ");
    match got {
        None => c.hit(false, label, inp(), "panic".into(), ws()),
        Some(g) => {
            if g.len() == want.len() && g.iter().zip(&want).all(|(a, b)| a.key() == b.key()) { return; }
            let soft = g.len() == want.len() && g.iter().zip(&want).all(|(a, b)| {
                let (x, y) = (a.f(), b.f());
                (x - y).abs() <= T::noise(scale.max(y.abs()))
            });
            c.hit(soft, label, inp(), g.iter().map(|x| x.show()).collect::<Vec<_>>().join(", "), ws());
        }
    }
}

/// Exact comparison; `want` None = the call must panic.
pub fn exact<T: V>(c: &mut Ctx, label: &str, inp: &dyn Fn() -> String, got: Option<T>, want: Option<T>) {
    c.cases += 1;
    match (got, want) {
        (None, None) => {}
        (Some(g), Some(w)) if g.key() == w.key() => {}
        (g, w) => {
            let s = |x: Option<T>| x.map(|y| y.show()).unwrap_or("panic".into());
            c.hit(false, label, inp(), s(g), s(w));
        }
    }
}
