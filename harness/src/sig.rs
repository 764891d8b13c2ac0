//! Signal-side helpers shared by the harnesses (independent of the crate under test).
#![allow(dead_code)]
use crate::rt::*;
use infrared::receiver::{DecoderBuilder, DecodingError, NoPin};
use infrared::Receiver;

/// Smallest / largest tick count within `pct` percent of `us` microseconds at `freq` Hz.
pub fn lo_pct(us: u32, freq: u32, pct: u32) -> u32 {
    let n = us as u64 * freq as u64 * (100 - pct as u64);
    ((n + 99_999_999) / 100_000_000) as u32
}
pub fn hi_pct(us: u32, freq: u32, pct: u32) -> u32 {
    let n = us as u64 * freq as u64 * (100 + pct as u64);
    (n / 100_000_000) as u32
}
pub fn within(d: u32, us: u32, freq: u32, pct: u32) -> bool {
    d >= lo_pct(us, freq, pct) && d <= hi_pct(us, freq, pct)
}
/// As `within`, widened by one tick on each side (for span rounding).
pub fn within1(d: u64, us: u32, freq: u32, pct: u32) -> bool {
    d + 1 >= lo_pct(us, freq, pct) as u64 && d <= hi_pct(us, freq, pct) as u64 + 1
}

/// An arbitrary duration within 5 % of nominal.
#[inline(always)]
pub fn jit(tag: u32, us: u32, freq: u32) -> u32 {
    any_in(tag, lo_pct(us, freq, 5), hi_pct(us, freq, 5))
}

pub type Rx<P> = Receiver<P, NoPin, u32>;

/// `n` (even) arbitrary alternating edges starting with a rising one.
#[inline(always)]
pub fn noise<P: DecoderBuilder<u32>>(r: &mut Rx<P>, n: u32, tag: u32) {
    for i in 0..n {
        let d = any_u32(tag + i);
        let _ = r.event(d, i % 2 == 0);
    }
}

/// The rising edge that ends a silence of at least 20 ms.
#[inline(always)]
pub fn gap<P: DecoderBuilder<u32>>(r: &mut Rx<P>, freq: u32, tag: u32) {
    let d = any_in(tag, freq / 50, u32::MAX);
    let _ = r.event(d, true);
}

/// Nothing may be reported on this edge.
#[inline(always)]
pub fn quiet<C>(x: Result<Option<C>, DecodingError>, id: u32) {
    check(matches!(x, Ok(None)), id);
}

#[inline(always)]
pub fn bitrev32(x: u32) -> u32 {
    x.reverse_bits()
}

// ---------------------------------------------------------------------------
// Frame generators, written from the protocol descriptions.  `put(us, rising, last)`
// receives every edge after the first rising edge of the frame: `us` is the nominal
// time since the previous edge, `last` marks the edge that completes the command.
// `tag` numbers the edges of the generator (unique per dynamic edge).

/// NEC-like: header mark/space, 32 bits LSB first, stop mark begins at `last`.
#[inline(always)]
pub fn gen_nec(header_us: u32, bits: u32, mut put: impl FnMut(u32, u32, bool, bool)) {
    put(0, header_us, false, false);
    put(1, 4500, true, false);
    for i in 0..32 {
        put(2 + 2 * i, 560, false, false);
        let us = if bits >> i & 1 == 1 { 1690 } else { 560 };
        put(3 + 2 * i, us, true, i == 31);
    }
}

/// RC5: 14 bits MSB first, first one always 1; bit 1 = space then mark, unit 889 us.
/// The first rising edge (not emitted) is the centre of the first start bit.
#[inline(always)]
pub fn gen_rc5(word: u16, mut put: impl FnMut(u32, u32, bool, bool)) {
    let mut prev = true;
    for i in 0..13u32 {
        let bit = word >> (12 - i) & 1 == 1;
        let last = i == 12;
        if bit == prev {
            put(2 * i, 889, !bit, false);
            put(2 * i + 1, 889, bit, last);
        } else {
            put(2 * i, 1778, bit, last);
        }
        prev = bit;
    }
}

/// RC6 mode 0: leader 6T mark 2T space, start bit 1, three mode bits 0, a double-width
/// toggle bit, 16 data bits MSB first; bit 1 = mark then space, T = 444 us.
/// `last` marks the edge at the centre of the last bit.
#[inline(always)]
pub fn gen_rc6(toggle: bool, word: u16, mut put: impl FnMut(u32, u32, bool, bool)) {
    const T: u32 = 444;
    put(0, 6 * T, false, false); // end of the leader mark
    put(1, 2 * T, true, false); // start bit begins
    put(2, T, false, false); // centre of the start bit (1)
    put(3, 2 * T, true, false); // centre of mode bit 2 (0)
    put(4, T, false, false);
    put(5, T, true, false); // centre of mode bit 1 (0)
    put(6, T, false, false);
    put(7, T, true, false); // centre of mode bit 0 (0)
    if toggle {
        put(8, 3 * T, false, false); // centre of the toggle bit: mark to space
    } else {
        put(9, T, false, false);
        put(10, 2 * T, true, false); // centre of the toggle bit: space to mark
    }
    let mut prev = toggle;
    for i in 0..16u32 {
        let bit = word >> (15 - i) & 1 == 1;
        let last = i == 15;
        let half = if i == 0 { 2 * T } else { T }; // second half of the previous bit
        if bit == prev {
            put(11 + 3 * i, half, bit, false); // edge at the bit boundary
            put(12 + 3 * i, T, !bit, last);
        } else {
            put(13 + 3 * i, half + T, !bit, last);
        }
        prev = bit;
    }
}

/// Samsung Blu-ray: header, 16 address bits, divider, 20 bits, all LSB first.
#[inline(always)]
pub fn gen_sbp(address: u16, data: u32, mut put: impl FnMut(u32, u32, bool, bool)) {
    put(0, 4500, false, false);
    put(1, 4500, true, false);
    for i in 0..16u32 {
        put(2 + 2 * i, 500, false, false);
        put(3 + 2 * i, if address >> i & 1 == 1 { 1500 } else { 500 }, true, false);
    }
    put(40, 500, false, false);
    put(41, 4500, true, false);
    for i in 0..20u32 {
        put(42 + 2 * i, 500, false, false);
        put(43 + 2 * i, if data >> i & 1 == 1 { 1500 } else { 500 }, true, i == 19);
    }
}

/// Denon: header 3400/1600, 48 bits LSB first (480 mark, 360 / 1200 space).
#[inline(always)]
pub fn gen_denon(bits: u64, mut put: impl FnMut(u32, u32, bool, bool)) {
    put(0, 3400, false, false);
    put(1, 1600, true, false);
    for i in 0..48u32 {
        put(2 + 2 * i, 480, false, false);
        put(3 + 2 * i, if bits >> i & 1 == 1 { 1200 } else { 360 }, true, i == 47);
    }
}
