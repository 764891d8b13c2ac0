//! C06: pulse-distance commands are never invented.
//! An arbitrary alternating edge stream; whenever a command is reported, the intervals
//! that end at this very edge must spell exactly that command (header, every bit).
use crate::rt::*;
use crate::sig::*;
use infrared::protocol::{Denon, NecDebug, SamsungNec, Nec16, Nec, Sbp};

/// One mark+space distance as seen on the wire.
#[derive(Clone, Copy)]
struct D(u64);
impl D {
    #[inline(always)]
    fn is(self, us: u32, freq: u32, pct: u32) -> bool {
        within1(self.0, us, freq, pct)
    }
}

/// Reads mark+space distances off an arbitrary stream: (distance, last interval).
/// (The very first edge has no mark before it.)
#[inline(always)]
fn pair(i: usize) -> (u32, u32) {
    let m = if i == 0 { 0 } else { any_u32(1000 + 2 * i as u32) };
    (m, any_u32(1001 + 2 * i as u32))
}

const NEC_N: usize = if THOROUGH { 72 } else { 36 };

macro_rules! nec_like {
    ($proto:ty, $freq:expr, $header:expr, $repeat:expr, $c:ident, $isrep:expr, $ok:expr) => {{
        let freq: u32 = $freq;
        let mut r: Rx<$proto> = Rx::new(freq);
        let mut hdr = [false; NEC_N];
        let mut zero = [false; NEC_N];
        let mut one = [false; NEC_N];
        for i in 0..NEC_N {
            let (m, s) = pair(i);
            if i > 0 {
                quiet(r.event(m, false), 1);
            }
            let d = D(m as u64 + s as u64);
            hdr[i] = d.is($header + 4500, freq, 8);
            zero[i] = d.is(1120, freq, 25);
            one[i] = d.is(2250, freq, 25);
            let x = r.event(s, true);
            if let Ok(Some($c)) = x {
                cover(true, 1);
                if $isrep {
                    check(d.is($header + 2250, freq, 8), 2);
                } else {
                    check(i >= 32, 3);
                    if i >= 32 {
                        check(hdr[i - 32], 4);
                        let mut bits = 0u32;
                        let mut ok = true;
                        for b in 0..32 {
                            ok &= zero[i - 31 + b] | one[i - 31 + b];
                            bits |= (one[i - 31 + b] as u32) << b;
                        }
                        check(ok, 5);
                        check($ok(bits, &$c), 6);
                        cover(true, 2);
                    }
                }
            }
        }
    }};
}

#[inline(always)]
fn std(freq: u32) {
    nec_like!(Nec, freq, 9000, true, c, c.repeat, |b: u32, c: &infrared::protocol::nec::NecCommand| c.addr as u32 == b & 0xFF
        && c.cmd as u32 == b >> 16 & 0xFF)
}
#[inline(always)]
fn samsung(freq: u32) {
    nec_like!(SamsungNec, freq, 4500, true, c, c.repeat, |b: u32, c: &infrared::protocol::nec::SamsungNecCommand| c.addr as u32
        == b & 0xFF
        && c.cmd as u32 == b >> 16 & 0xFF)
}
#[inline(always)]
fn nec16(freq: u32) {
    nec_like!(Nec16, freq, 9000, true, c, c.repeat, |b: u32, c: &infrared::protocol::nec::Nec16Command| c.addr as u32
        == b & 0xFFFF
        && c.cmd as u32 == b >> 16 & 0xFF)
}
/// Every one of the 32 bits (this variant does not flag repeats, so repeat codes are
/// kept out of the stream).
#[inline(always)]
fn debug(freq: u32) {
    let mut r: Rx<NecDebug> = Rx::new(freq);
    let mut hdr = [false; NEC_N];
    let mut zero = [false; NEC_N];
    let mut one = [false; NEC_N];
    for i in 0..NEC_N {
        let (m, s) = pair(i);
        if i > 0 {
            quiet(r.event(m, false), 1);
        }
        let d = D(m as u64 + s as u64);
        assume(!d.is(11250, freq, 8));
        hdr[i] = d.is(13500, freq, 8);
        zero[i] = d.is(1120, freq, 25);
        one[i] = d.is(2250, freq, 25);
        if let Ok(Some(c)) = r.event(s, true) {
            check(i >= 32, 3);
            if i >= 32 {
                check(hdr[i - 32], 4);
                let mut bits = 0u32;
                let mut ok = true;
                for b in 0..32 {
                    ok &= zero[i - 31 + b] | one[i - 31 + b];
                    bits |= (one[i - 31 + b] as u32) << b;
                }
                check(ok, 5);
                check(bits == c.bits, 6);
                cover(c.bits == 0x1234_5678, 2);
            }
        }
    }
}

const DEN_N: usize = if THOROUGH { 104 } else { 52 };
#[inline(always)]
fn denon(freq: u32) {
    let mut r: Rx<Denon> = Rx::new(freq);
    let mut hdr = [false; DEN_N];
    let mut zero = [false; DEN_N];
    let mut one = [false; DEN_N];
    for i in 0..DEN_N {
        let (m, s) = pair(i);
        if i > 0 {
            quiet(r.event(m, false), 1);
        }
        let d = D(m as u64 + s as u64);
        hdr[i] = d.is(5000, freq, 8);
        zero[i] = d.is(840, freq, 25);
        one[i] = d.is(1680, freq, 25);
        if let Ok(Some(c)) = r.event(s, true) {
            check(i >= 48, 3);
            if i >= 48 {
                check(hdr[i - 48], 4);
                let mut bits = 0u64;
                let mut ok = true;
                for b in 0..48 {
                    ok &= zero[i - 47 + b] | one[i - 47 + b];
                    bits |= (one[i - 47 + b] as u64) << b;
                }
                check(ok, 5);
                check(bits == c.bits, 6);
                cover(c.bits == 0x8234_5678_9ABC, 2);
            }
        }
    }
}

const SBP_N: usize = if THOROUGH { 80 } else { 41 };
#[inline(always)]
fn sbp(freq: u32) {
    let mut r: Rx<Sbp> = Rx::new(freq);
    let mut hdr = [false; SBP_N];
    let mut div = [false; SBP_N];
    let mut zero = [false; SBP_N];
    let mut one = [false; SBP_N];
    for i in 0..SBP_N {
        let (m, s) = pair(i);
        if i > 0 {
            quiet(r.event(m, false), 1);
        }
        let d = D(m as u64 + s as u64);
        hdr[i] = d.is(9000, freq, 8);
        div[i] = d.is(5000, freq, 8);
        zero[i] = d.is(1000, freq, 25);
        one[i] = d.is(2000, freq, 25);
        if let Ok(Some(c)) = r.event(s, true) {
            check(i >= 37, 3);
            if i >= 37 {
                let s0 = i - 37;
                check(hdr[s0], 4);
                check(div[s0 + 17], 7);
                let (mut a, mut v) = (0u32, 0u32);
                let mut ok = true;
                for b in 0..16 {
                    ok &= zero[s0 + 1 + b] | one[s0 + 1 + b];
                    a |= (one[s0 + 1 + b] as u32) << b;
                }
                for b in 0..20 {
                    ok &= zero[s0 + 18 + b] | one[s0 + 18 + b];
                    v |= (one[s0 + 18 + b] as u32) << b;
                }
                check(ok, 5);
                check(c.address as u32 == a, 6);
                check(c.command as u32 == v >> 4 & 0xFF, 8);
                check(c.valid == ((v >> 4 ^ v >> 12) & 0xFF == 0xFF), 9);
                cover(c.valid, 2);
            }
        }
    }
}

harnesses! {
    fn h_c06_debug_1m() { debug(1_000_000) }
    fn h_c06_std_1m() { std(1_000_000) }
    fn h_c06_samsung_40k() { samsung(40_000) }
    fn h_c06_nec16_100k() { nec16(100_000) }
    fn h_c06_denon_1m() { denon(1_000_000) }
    fn h_c06_sbp_1m() { sbp(1_000_000) }
    #[cfg(feature = "thorough")]
    fn h_c06_denon_40k() { denon(40_000) }
    #[cfg(feature = "thorough")]
    fn h_c06_sbp_40k() { sbp(40_000) }
    #[cfg(feature = "thorough")]
    fn h_c06_debug_40k() { debug(40_000) }
    #[cfg(feature = "thorough")]
    fn h_c06_debug_20k() { debug(20_000) }
}
