//! P20: integer steps, against the rank model.
#![allow(unused_imports)]
use nimon::dom::*;
use nimon::ivs::*;
use nimon::mon::*;
use nimon::rng::{mix, Rng};
use nimon::rset::RSet;
use nimon::{pick_dom, pick_small, want, want_eq};
use normalize_interval::normalize::{Finite, Normalize};
use normalize_interval::raw_interval::RawInterval;
use normalize_interval::Interval;
use std::ops::Sub;

trait Int: Dom + Copy { const MIN: Self; const MAX: Self; fn up(self) -> Option<Self>; fn down(self) -> Option<Self>; fn bits(r: u128) -> Self; }
macro_rules! int { ($($t:ident),*) => { $(impl Int for $t {
    const MIN: Self = <$t>::MIN; const MAX: Self = <$t>::MAX;
    fn up(self) -> Option<Self> { self.checked_add(1) }
    fn down(self) -> Option<Self> { self.checked_sub(1) }
    fn bits(r: u128) -> Self { r as $t }
})* } }
int![u8, i8, u16, i16, u32, i32, u64, i64, u128, i128, usize, isize];
fn p20_val<T: Int>(cx: &mut Ctx, v: T) -> bool {
    cx.case(v.rank() as u64 ^ (v.rank() >> 64) as u64, true, || format!("{}: {v:?}", T::NAME), |ev| {
        want_eq!(v.succ(), v.up(), "succ of {v:?}");
        want_eq!(v.pred(), v.down(), "pred of {v:?}");
        bump(ev, if v.up().is_none() || v.down().is_none() { "extreme values stepped" } else { "values stepped" }, 1);
        Ok(())
    })
}
fn p20_t<T: Int>(cx: &mut Ctx) {
    if !cx.case(0, true, || format!("{}: declared extremes", T::NAME), |_| {
        want_eq!(<T as Finite>::MINIMUM, T::MIN, "minimum");
        want_eq!(<T as Finite>::MAXIMUM, T::MAX, "maximum");
        Ok(())
    }) { return; }
    let max = T::max_rank();
    if max <= u16::MAX as u128 { for r in 0..=max { if !p20_val(cx, T::bits(r)) { return; } } return; }
    for r in critical::<T>() { if !p20_val(cx, T::from_rank(r)) { return; } }
    // Around every power of two and every byte boundary pattern.
    for sh in 0..128u32 {
        for d in 0..9u128 {
            let b = 1u128.checked_shl(sh).unwrap_or(0);
            for x in [b.wrapping_add(d).wrapping_sub(4), (!b).wrapping_add(d).wrapping_sub(4), b.wrapping_neg().wrapping_add(d).wrapping_sub(4), b.wrapping_mul(10).wrapping_add(d)] {
                if !p20_val(cx, T::bits(x)) { return; }
            }
        }
    }
    // Around decimal boundaries, repeated digits and small multiples of them.
    for base in [10u128, 3, 5, 7, 100, 60, 1000, 6] {
        let mut b = 1u128;
        loop {
            for k in 1..10u128 {
                for d in 0..7u128 {
                    let x = b.wrapping_mul(k).wrapping_add(d).wrapping_sub(3);
                    if !p20_val(cx, T::bits(x)) || !p20_val(cx, T::bits(x.wrapping_neg())) { return; }
                }
            }
            let rep = (b - 1) / (base - 1);
            for k in 0..base.min(10) { if !p20_val(cx, T::bits(rep.wrapping_mul(k))) || !p20_val(cx, T::bits(rep.wrapping_mul(k).wrapping_neg())) { return; } }
            match b.checked_mul(base) { Some(x) => b = x, None => break }
        }
    }
    // A byte, or two bytes, repeated.
    for w in [8u32, 16] {
        for p in (0..1u128 << w).step_by(if w == 16 { 37 } else { 1 }) {
            let mut x = 0; for i in 0..128 / w { x |= p << (w * i); }
            for d in 0..3u128 { if !p20_val(cx, T::bits(x.wrapping_add(d).wrapping_sub(1))) { return; } }
        }
    }
    let n = if cx.thorough { 400_000 } else { 30_000 };
    for _ in 0..n { let x = cx.rng.u128() >> cx.rng.below(128); if !p20_val(cx, T::bits(x)) { return; } }
}
fn p20(cx: &mut Ctx) {
    match cx.block % 12 {
        0 => p20_t::<u8>(cx), 1 => p20_t::<i8>(cx), 2 => p20_t::<u16>(cx), 3 => p20_t::<i16>(cx),
        4 => p20_t::<u32>(cx), 5 => p20_t::<i32>(cx), 6 => p20_t::<u64>(cx), 7 => p20_t::<i64>(cx),
        8 => p20_t::<u128>(cx), 9 => p20_t::<i128>(cx), 10 => p20_t::<usize>(cx), _ => p20_t::<isize>(cx),
    }
}

/// Many values as one case; the message names the value.
fn chunk<T: Int>(cx: &mut Ctx, what: &str, key: u64, vals: impl Iterator<Item = T> + Clone) -> bool {
    cx.case(key, true, || format!("{}: {what}", T::NAME), |ev| {
        let mut n = 0;
        for v in vals.clone().map(std::hint::black_box) {
            if v.succ() != v.up() { return Err(format!("succ of {v:?}: observed {:?}, expected {:?}", v.succ(), v.up())); }
            if v.pred() != v.down() { return Err(format!("pred of {v:?}: observed {:?}, expected {:?}", v.pred(), v.down())); }
            n += 1;
        }
        bump(ev, "values stepped", n);
        Ok(())
    })
}
/// Every value of the 32 bit types (every 61st one with the slow monitors).
fn all32(cx: &mut Ctx) {
    let by = if cfg!(debug_assertions) { 61 } else { 1 };
    let (b, signed) = (cx.block / 2 % 64, cx.block % 2 == 1);
    for k in 0..64u64 {
        let lo = b << 26 | k << 20;
        let r = (lo..lo + (1 << 20)).step_by(by);
        let what = format!("values {lo:#x}.. by {by}");
        if !(if signed { chunk::<i32>(cx, &what, lo << 1 | 1, r.map(|x| x as u32 as i32)) } else { chunk::<u32>(cx, &what, lo << 1, r.map(|x| x as u32)) }) { return; }
    }
}
/// Every pattern of sixteen adjacent bits at every byte, on six backgrounds.
fn window_t<T: Int>(cx: &mut Ctx) {
    let bytes = (128 - T::max_rank().leading_zeros()) / 8;
    let by = if cfg!(debug_assertions) { 7 } else { 1 };
    for byte in 0..bytes {
        let x = cx.rng.u128();
        for (i, bg) in [0u128, !0, 1 << (bytes * 8 - 1), !(1 << (bytes * 8 - 1)), 1, x].into_iter().enumerate() {
            let mask = 0xffffu128 << (8 * byte);
            let vals = (0..65536u128).step_by(by).map(move |w| T::bits(bg & !mask | w << (8 * byte)));
            if !chunk::<T>(cx, &format!("bits {}.. over {bg:#x}", 8 * byte), (byte * 8 + i as u32) as u64 ^ crate::hash_of(&T::NAME), vals) { return; }
        }
    }
}
fn windows(cx: &mut Ctx) {
    match cx.block % 6 {
        0 => window_t::<u64>(cx), 1 => window_t::<i64>(cx), 2 => window_t::<u128>(cx), 3 => window_t::<i128>(cx), 4 => window_t::<usize>(cx), _ => window_t::<isize>(cx),
    }
}

fn suites(_: &str) -> Vec<Suite> {
    let s = |name, quick, thorough, run| Suite { name, quick, thorough, run };
    vec![s("integers", 12, 12, p20 as fn(&mut Ctx)), s("bit-windows", 6, 48, windows), s("all-32-bit-values", 128, 128, all32)]
}

fn main() {
    fn t<T: Dom>() { self_test_dom::<T>() }
    for i in 0..TYPES { pick_dom!(i, t,) }
    for i in 0..8 { pick_small!(i, t,) }
    main_with(suites)
}
