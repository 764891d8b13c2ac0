//! C31: pulse spans classify a duration by the first span that contains it, and know whether
//! they overlap.
use crate::rt::*;
use fugit::{TimerDurationU32, TimerDurationU64, TimerInstantU32, TimerInstantU64};
use infrared::receiver::time::{InfraMonotonic, PulseSpans};

const MHZ: u32 = 1_000_000;
const MAX: u32 = if THOROUGH { 2000 } else { 500 };

/// The tolerances the protocols use, and the extremes.
const TOLS: [u32; 8] = [5, 7, 10, 12, 25, 50, 100, 0];

/// Two arbitrary pulses among six fixed ones.
#[inline(always)]
fn pulses(i: usize, j: usize) -> [u32; 8] {
    let mut p = [9000, 100, 1700, 889, 2250, 20, 4, 444];
    p[i] = any_in(1, 0, MAX);
    p[j] = any_in(2, 0, MAX);
    p
}
/// A duration that is within the tolerance of a pulse.
#[inline(always)]
fn inside(d: u64, p: u32, t: u32) -> bool {
    let r = (p * t / 100) as u64;
    let p = p as u64;
    d + r >= p && d <= p + r
}
#[inline(always)]
fn first(d: u64, p: &[u32; 8]) -> Option<usize> {
    let mut found = None;
    for i in (0..8).rev() {
        if inside(d, p[i], TOLS[i]) {
            found = Some(i);
        }
    }
    found
}
#[inline(always)]
fn overlap(p: &[u32; 8]) -> bool {
    let mut any = false;
    for i in 0..8 {
        for j in 0..i {
            let (ri, rj) = (p[i] * TOLS[i] / 100, p[j] * TOLS[j] / 100);
            any |= p[i] - ri <= p[j] + rj && p[j] - rj <= p[i] + ri;
        }
    }
    any
}

/// Clock types with their ticks.
trait Ticks: InfraMonotonic {
    fn dur(n: u32) -> Self::Duration;
}
impl Ticks for u32 {
    #[inline(always)]
    fn dur(n: u32) -> u32 {
        n
    }
}
impl Ticks for u64 {
    #[inline(always)]
    fn dur(n: u32) -> u64 {
        n as u64
    }
}
impl Ticks for TimerInstantU32<MHZ> {
    #[inline(always)]
    fn dur(n: u32) -> TimerDurationU32<MHZ> {
        TimerDurationU32::from_ticks(n)
    }
}
impl Ticks for TimerInstantU64<MHZ> {
    #[inline(always)]
    fn dur(n: u32) -> TimerDurationU64<MHZ> {
        TimerDurationU64::from_ticks(n as u64)
    }
}
#[inline(always)]
fn get<M: Ticks>(i: usize, j: usize) {
    let p = pulses(i, j);
    let s = PulseSpans::<M>::new(MHZ, &p, &TOLS);
    let d = any_u32(20);
    let x = s.get::<usize>(M::dur(d));
    check(x == first(d as u64, &p), 1);
    cover(x == Some(i), 1);
    cover(x.is_none(), 2);
}
#[inline(always)]
fn overlaps<M: Ticks>(i: usize, j: usize, q: &[u32; 8]) {
    let mut p = *q;
    p[i] = any_in(1, 0, MAX);
    p[j] = any_in(2, 0, 2 * MAX);
    let s = PulseSpans::<M>::new(MHZ, &p, &TOLS);
    let x = s.check_overlaps();
    check(x == overlap(&p), 3);
    cover(x, 1);
    cover(!x, 2);
}
/// no two of these overlap (with the tolerances above)
const APART: [u32; 8] = [30_000, 26_000, 20_000, 15_000, 10_000, 4_000, 0, 1_900];

harnesses! {
    fn h_c31_get_01() { get::<u32>(0, 1) }
    fn h_c31_get_17() { get::<u32>(1, 7) }
    fn h_c31_get_35() { get::<u32>(3, 5) }
    fn h_c31_get_42() { get::<u32>(4, 2) }
    fn h_c31_get_67() { get::<u32>(6, 7) }
    fn h_c31_get64_02() { get::<u64>(0, 2) }
    fn h_c31_get64_34() { get::<u64>(3, 4) }
    fn h_c31_getf32() { get::<TimerInstantU32<MHZ>>(0, 2) }
    fn h_c31_getf64() { get::<TimerInstantU64<MHZ>>(0, 2) }
    fn h_c31_overlap_01() { overlaps::<u32>(0, 1, &APART) }
    fn h_c31_overlap_23() { overlaps::<u32>(2, 3, &APART) }
    fn h_c31_overlap_57() { overlaps::<u32>(5, 7, &APART) }
    fn h_c31_overlap_04() { overlaps::<u32>(0, 4, &APART) }
    fn h_c31_overlap64() { overlaps::<u64>(1, 5, &APART) }
    fn h_c31_overlapf32() { overlaps::<TimerInstantU32<MHZ>>(2, 4, &APART) }
    fn h_c31_overlapf64() { overlaps::<TimerInstantU64<MHZ>>(0, 3, &APART) }
    fn h_c31_arith() {
        // the clock types' own arithmetic
        let (a, b) = (any_u32(1), any_u32(2));
        check(<u32 as InfraMonotonic>::saturating_add(a, b) as u64 == (a as u64 + b as u64).min(u32::MAX as u64), 10);
        check(<u32 as InfraMonotonic>::checked_sub(a, b) == if a >= b { Some(a - b) } else { None }, 11);
        let (c, d) = (any_u64(3), any_u64(4));
        check(<u64 as InfraMonotonic>::saturating_add(c, d) as u128 == (c as u128 + d as u128).min(u64::MAX as u128), 12);
        check(<u64 as InfraMonotonic>::checked_sub(c, d) == if c >= d { Some(c - d) } else { None }, 13);
        type I = TimerInstantU32<MHZ>;
        let s = <I as InfraMonotonic>::saturating_add(TimerDurationU32::<MHZ>::from_ticks(a), TimerDurationU32::<MHZ>::from_ticks(b));
        check(s.ticks() as u64 == (a as u64 + b as u64).min(u32::MAX as u64), 14);
        type J = TimerInstantU64<MHZ>;
        let s = <J as InfraMonotonic>::saturating_add(TimerDurationU64::<MHZ>::from_ticks(c), TimerDurationU64::<MHZ>::from_ticks(d));
        check(s.ticks() as u128 == (c as u128 + d as u128).min(u64::MAX as u128), 15);
        cover(a > b && c < d, 1);
    }
}
