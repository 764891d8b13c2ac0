//! C07: bi-phase commands are never invented.
//! An arbitrary alternating edge stream; whenever a command is reported, a look back over
//! the stream must find it: an opening edge, all intervals whole half-bit units, and the
//! direction of every edge at a bit centre spelling the command.
use crate::rt::*;
use crate::sig::*;
use infrared::protocol::{Rc5, Rc6};

/// An arbitrary interval and the number of half-bit units it lasts: `k` units when within
/// 5 % of `k * unit_us`, none (0) when further than 13 % (and a tick) from every count.
#[inline(always)]
fn interval(i: usize, unit_us: u32, max: u32, freq: u32) -> (u32, u32) {
    let tag = 1000 + 20 * i as u32;
    let class = any_in(tag, 0, 2 * max);
    let mut d = any_in(tag + 2 * max + 1, hi_pct(unit_us * max, freq, 13) + 2, u32::MAX);
    let mut u = 0;
    for k in 1..=max {
        let v = any_in(tag + k, lo_pct(unit_us * k, freq, 5), hi_pct(unit_us * k, freq, 5));
        if class == k {
            d = v;
            u = k;
        }
        // the gap below k units, if there is one
        let lo = if k == 1 { 0 } else { hi_pct(unit_us * (k - 1), freq, 13) + 2 };
        let hi = lo_pct(unit_us * k, freq, 13) - 2;
        if lo <= hi {
            let v = any_in(tag + max + k, lo, hi);
            if class == max + k {
                d = v;
            }
        }
    }
    (d, u)
}

/// An interval further than 13 % (and a tick) from every count of units.
#[inline(always)]
fn no_unit(i: usize, unit_us: u32, max: u32, freq: u32) -> u32 {
    let tag = 1000 + 20 * i as u32;
    let mut d = any_in(tag, hi_pct(unit_us * max, freq, 13) + 2, u32::MAX);
    for k in 1..=max {
        let lo = if k == 1 { 0 } else { hi_pct(unit_us * (k - 1), freq, 13) + 2 };
        let hi = lo_pct(unit_us * k, freq, 13) - 2;
        if lo <= hi {
            let v = any_in(tag + k, lo, hi);
            if any_bool(tag + 10 + k) {
                d = v;
            }
        }
    }
    d
}

/// An arbitrary history: `n` edges, the first one rising.
#[inline(always)]
fn history<P: infrared::receiver::DecoderBuilder<u32>>(r: &mut Rx<P>, n: usize, unit_us: u32, max: u32, freq: u32) {
    for i in 0..n {
        let (d, _) = interval(i, unit_us, max, freq);
        let _ = r.event(d, i % 2 == 0);
    }
}

/// The edge that opens a frame: a rise after an interval that is no whole number of units,
/// or any rise right after a fall that ended such an interval.
#[inline(always)]
fn open<P: infrared::receiver::DecoderBuilder<u32>>(r: &mut Rx<P>, fall_first: bool, unit_us: u32, max: u32, freq: u32) {
    let d = no_unit(900, unit_us, max, freq);
    let (e, _) = interval(901, unit_us, max, freq);
    if fall_first {
        quiet(r.event(d, false), 11);
        quiet(r.event(e, true), 12);
    } else {
        quiet(r.event(d, true), 13);
    }
}

const HIST6: usize = if THOROUGH { 16 } else { 6 };
const HIST: usize = if THOROUGH { 60 } else { 16 };

/// `k` units (within 5 %), where `k` is one of `of`.
#[inline(always)]
fn units(i: usize, of: &[u32], unit_us: u32, freq: u32) -> u32 {
    let tag = 1000 + 20 * i as u32;
    let mut d = any_in(tag + 1, lo_pct(unit_us * of[0], freq, 5), hi_pct(unit_us * of[0], freq, 5));
    for k in 1..of.len() {
        let v = any_in(tag + 1 + k as u32, lo_pct(unit_us * of[k], freq, 5), hi_pct(unit_us * of[k], freq, 5));
        if any_bool(tag + 10 + k as u32) {
            d = v;
        }
    }
    d
}

/// From one bit centre to the next: an even interval, or two odd ones, or (a missing
/// centre, tolerated) two odd ones around an even one.  Calls `edge(d, centre)`
/// for every edge on the way.
#[inline(always)]
fn to_next_centre(i: usize, odd: &[u32], even: &[u32], unit_us: u32, freq: u32, mut edge: impl FnMut(u32, bool)) {
    if any_bool(900_000 + 2 * i as u32) {
        edge(units(100 + 4 * i, even, unit_us, freq), true);
    } else {
        edge(units(101 + 4 * i, odd, unit_us, freq), false);
        if any_bool(900_001 + 2 * i as u32) {
            edge(units(102 + 4 * i, even, unit_us, freq), false);
        }
        edge(units(103 + 4 * i, odd, unit_us, freq), true);
    }
}

/// RC5, from an opening edge on.
#[inline(always)]
fn rc5(freq: u32, hist: usize, fall_first: bool) {
    let mut r: Rx<Rc5> = Rx::new(freq);
    history(&mut r, hist, 889, 2, freq);
    open(&mut r, fall_first, 889, 2, freq);
    let mut rising = true;
    let mut word = 1u32 << 13;
    for i in 0..13 {
        to_next_centre(i, &[1], &[2], 889, freq, |d, centre| {
            rising = !rising;
            let x = r.event(d, rising);
            if centre {
                word |= (rising as u32) << (12 - i);
            }
            if let Ok(Some(c)) = x {
                check(centre && i == 12, 1);
                check(c.cmd as u32 == word & 0x3F, 2);
                check(c.addr as u32 == word >> 6 & 0x1F, 3);
                check(c.toggle == (word >> 11 & 1 == 1), 4);
                check(c.start as u32 == word >> 12 & 3, 5);
                cover(word == 0x3155, 2);
                cover(word == 0x3FFF, 3);
            }
        });
    }
    // and nothing more
    let (d, _) = interval(800, 889, 2, freq);
    quiet(r.event(d, !rising), 6);
}

const ODD: &[u32] = if THOROUGH { &[1, 3] } else { &[1] };
const EVEN: &[u32] = if THOROUGH { &[2, 4] } else { &[2] };

/// RC6, from an opening edge on.
#[inline(always)]
fn rc6(freq: u32, hist: usize, fall_first: bool) {
    let mut r: Rx<Rc6> = Rx::new(freq);
    history(&mut r, hist, 444, 6, freq);
    open(&mut r, fall_first, 444, 6, freq);
    quiet(r.event(units(902, &[6], 444, freq), false), 21);
    quiet(r.event(units(903, &[2], 444, freq), true), 22);
    // start bit and mode bits
    quiet(r.event(units(904, ODD, 444, freq), false), 23);
    let mut rising = false;
    for i in 0..2 {
        to_next_centre(i, ODD, EVEN, 444, freq, |d, _| {
            rising = !rising;
            quiet(r.event(d, rising), 24);
        });
    }
    // the last mode bit is 0: a rise
    if rising {
        quiet(r.event(units(905, ODD, 444, freq), false), 24);
        quiet(r.event(units(906, ODD, 444, freq), true), 24);
    } else {
        quiet(r.event(units(907, EVEN, 444, freq), true), 24);
    }
    // the toggle bit changes level three units later
    let toggle = any_bool(1);
    if toggle {
        quiet(r.event(units(908, &[3], 444, freq), false), 25);
    } else {
        quiet(r.event(units(909, &[1], 444, freq), false), 26);
        quiet(r.event(units(910, &[2], 444, freq), true), 27);
    }
    rising = !toggle;
    let mut word = 0u32;
    for i in 0..16 {
        let mut put = |d: u32, centre: bool| {
            rising = !rising;
            let x = r.event(d, rising);
            if centre {
                word |= (!rising as u32) << (15 - i);
            }
            if let Ok(Some(c)) = x {
                check(centre && i == 15, 1);
                check(c.toggle == toggle, 2);
                check(c.cmd as u32 == word & 0xFF, 3);
                check(c.addr as u32 == word >> 8 & 0xFF, 4);
                cover(c.toggle && c.addr == 0xA5, 1);
                cover(!c.toggle && c.cmd == 0xFF, 2);
            }
        };
        if i == 0 {
            // the first data centre: an odd number of units later
            if any_bool(2) {
                put(units(911, EVEN, 444, freq), false);
            }
            put(units(912, ODD, 444, freq), true);
        } else {
            to_next_centre(10 + i, ODD, EVEN, 444, freq, &mut put);
        }
    }
    let (d, _) = interval(800, 444, 6, freq);
    quiet(r.event(d, !rising), 6);
}

const N5S: usize = if THOROUGH { 19 } else { 18 };

#[inline(always)]
fn rc5_stream(freq: u32) {
    let mut r: Rx<Rc5> = Rx::new(freq);
    // Directions (1 = rising, most recent in bit 0) of the edges an even / odd number of
    // half bits before the latest edge, back to the last interval that is no whole number
    // of half bits; a marker bit above the oldest one.
    let mut even = 1u32;
    let mut odd = 1u32;
    for i in 0..N5S {
        let (d, u) = interval(i, 889, 2, freq);
        let rising = i % 2 == 0;
        if u == 1 {
            (even, odd) = (odd, even);
        }
        if u == 0 {
            even = 1;
            odd = 1;
        }
        even = even << 1 | rising as u32;
        if let Ok(Some(c)) = r.event(d, rising) {
            let word = even & 0x3FFF;
            // fourteen bit centres, the first of them a rise
            check(even >= 1 << 14 && word >> 13 == 1, 1);
            check(c.cmd as u32 == word & 0x3F, 2);
            check(c.addr as u32 == word >> 6 & 0x1F, 3);
            check(c.toggle == (word >> 11 & 1 == 1), 4);
            check(c.start as u32 == word >> 12 & 3, 5);
            cover(word == 0x3155, 2);
        }
    }
}

const N6S: usize = if THOROUGH { 26 } else { 25 };

#[inline(always)]
fn rc6_stream(freq: u32) {
    let mut r: Rx<Rc6> = Rx::new(freq);
    let mut u = [0u32; N6S];
    for i in 0..N6S {
        let (d, n) = interval(i, 444, 6, freq);
        u[i] = n;
        let rising = i % 2 == 0;
        if let Ok(Some(c)) = r.event(d, rising) {
            // Walk back from the last bit's centre.  Edges an even number of units away from
            // it are bit centres (falling = 1): 16 data bits, then the toggle region, then
            // the last mode bit, two more, the start bit, and the 6 + 2 unit leader.
            let mut word = !rising as u32;
            let mut centres = 1u32;
            let mut odd = false;
            let mut ok = true; // all intervals so far are whole units
            let mut tog1 = false;
            let mut tog0 = false;
            let mut tog0_even = false;
            let mut leader = false;
            let mut leader_even = false;
            for k in 0..i {
                let j = i - k; // interval from edge j-1 to edge j
                let e = j - 1;
                let up = e % 2 == 0;
                ok &= u[j] != 0;
                odd ^= u[j] % 2 == 1;
                if !odd {
                    if centres < 16 {
                        word |= (!up as u32) << centres;
                    } else if centres == 16 {
                        // last mode bit 0 (a rise), then the level change of the toggle bit
                        // three units later, possibly with an edge in between
                        tog1 = up && u[j] == 3;
                        tog0 = up && j < i && u[j] == 1 && u[j + 1] == 2;
                        // tolerated: that change two units after a last mode bit 1
                        tog0_even = up && e > 0 && u[e] == 2;
                    }
                    centres += 1;
                } else if ok && up && e >= 2 && u[e] == 2 && u[e - 1] == 6 {
                    leader |= centres == 20;
                    leader_even |= centres == 21;
                }
            }
            let normal = leader && if c.toggle { tog1 } else { tog0 };
            let tolerated = leader_even && tog0_even && !c.toggle;
            check(normal || tolerated, 1);
            check(c.cmd as u32 == word & 0xFF, 3);
            check(c.addr as u32 == word >> 8 & 0xFF, 4);
            cover(true, 1);
        }
    }
}

harnesses! {
    fn h_c07_rc5_1m() { rc5(1_000_000, HIST, false) }
    fn h_c07_rc5_40k() { rc5(40_000, HIST, false) }
    fn h_c07_rc5_20k_fall() { rc5(20_000, HIST + 1, true) }
    fn h_c07_rc6_1m() { rc6(1_000_000, HIST6, false) }
    fn h_c07_rc6_40k() { rc6(40_000, HIST6, false) }
    fn h_c07_rc6_40k_fall() { rc6(40_000, HIST6 + 1, true) }
    fn h_c07_stream_rc5_40k() { rc5_stream(40_000) }
    fn h_c07_stream_rc6_40k() { rc6_stream(40_000) }
}
