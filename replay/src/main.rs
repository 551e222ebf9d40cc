#![allow(unused)]
use replay::*;
include!(concat!(env!("REPLAY_GEN"), "/types.rs"));

#[cfg(any(feature = "c01", feature = "c02", feature = "c03", feature = "c04", feature = "c05", feature = "c06", feature = "c07", feature = "c21"))]
mod cx;
#[cfg(any(feature = "c08", feature = "c09", feature = "c10", feature = "c11", feature = "c12", feature = "c13", feature = "c14", feature = "c15", feature = "c16", feature = "c17", feature = "c18", feature = "c19", feature = "c07"))]
mod real;
#[cfg(feature = "c20")]
mod fmt;

fn main() {
    watchdog();
    std::panic::set_hook(Box::new(|_| {}));
    let mut c = Ctx { seed: 0x9E3779B97F4A7C15, hints: vec![], bits: vec![], hits: 0, soft: 0, cases: 0, front: 0, labels: Default::default() };
    if let Ok(s) = std::env::var("VERIF_SEED") {
        if let Ok(v) = s.parse::<u64>() { c.seed ^= v.wrapping_mul(0xD1B54A32D192ED03); if c.seed == 0 { c.seed = 1; } }
    }
    if let Ok(s) = std::env::var("REPLAY_HINTS") {
        for w in s.split_whitespace() {
            if let Some(b) = w.strip_prefix("b:") { if let Ok(v) = b.parse::<i128>() { c.bits.push(v); } }
            else if let Ok(v) = w.parse::<f64>() { c.hints.push(v); }
        }
    }
    for _ in 0..8 { c.next(); }
    #[cfg(feature = "c01")] cx::c01(&mut c);
    #[cfg(feature = "c02")] cx::c02(&mut c);
    #[cfg(feature = "c03")] cx::c03(&mut c);
    #[cfg(feature = "c04")] cx::c04(&mut c);
    #[cfg(feature = "c05")] cx::c05(&mut c);
    #[cfg(feature = "c06")] cx::c06(&mut c);
    #[cfg(feature = "c07")] { cx::c07(&mut c); real::c07(&mut c); }
    #[cfg(feature = "c08")] real::c08(&mut c);
    #[cfg(feature = "c09")] real::c09(&mut c);
    #[cfg(feature = "c10")] real::c10(&mut c);
    #[cfg(feature = "c11")] real::c11(&mut c);
    #[cfg(feature = "c12")] real::c12(&mut c);
    #[cfg(feature = "c13")] real::c13(&mut c);
    #[cfg(feature = "c14")] real::c14(&mut c);
    #[cfg(feature = "c15")] real::c15(&mut c);
    #[cfg(feature = "c16")] real::c16(&mut c);
    #[cfg(feature = "c17")] real::c17(&mut c);
    #[cfg(feature = "c18")] real::c18(&mut c);
    #[cfg(feature = "c19")] real::c19(&mut c);
    #[cfg(feature = "c21")] cx::c21(&mut c);
    #[cfg(feature = "c20")] fmt::c20(&mut c);
    println!("DONE cases={} hard={} soft={}", c.cases, c.hits, c.soft);
}
