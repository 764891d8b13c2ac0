//! C17: symbols are told apart in the same way at every clock frequency.
use crate::rt::*;
use infrared::protocol::{Denon, Nec, Rc5, Rc6, SamsungNec, Sbp};
use infrared::receiver::{DecoderBuilder, ProtocolDecoder};

#[inline(always)]
fn class<P: DecoderBuilder<u32>>(freq: u32, dt: u32) -> Option<usize> {
    P::build(freq).spans().get::<usize>(dt)
}

/// `dt` lies within 4 percent of `us` microseconds at `freq`.
#[inline(always)]
fn near(dt: u32, us: u32, freq: u32) -> bool {
    let n = us as u64 * freq as u64;
    let d = dt as u64 * 25_000_000;
    d >= n * 24 && d <= n * 26
}

/// Whatever is within 4 % of a symbol's nominal length is that symbol.
#[inline(always)]
fn accepts<P: DecoderBuilder<u32>>(us: u32, lo: u32) {
    let freq = any_in(1, lo, u32::MAX);
    let dt = any_u32(2);
    assume(near(dt, us, freq));
    let want = class::<P>(1_000_000, us);
    check(want.is_some(), 1);
    check(class::<P>(freq, dt) == want, 2);
    cover(freq == 48_000, 1);
    cover(freq > 100_000_000, 2);
}

/// Whatever is further than `pct` percent and a tick away from its nominal length is not
/// that symbol.
#[inline(always)]
fn rejects<P: DecoderBuilder<u32>>(us: u32, pct: u64, lo: u32) {
    let freq = any_in(1, lo, if THOROUGH { u32::MAX } else { 4_000_000 });
    let dt = any_u32(2);
    let n = us as u64 * freq as u64;
    let d = dt as u64 * 100_000_000;
    let below = d + 100_000_000 < n * (100 - pct);
    let above = d > n * (100 + pct) + 100_000_000;
    assume(below || above);
    let want = class::<P>(1_000_000, us);
    check(class::<P>(freq, dt) != want, 3);
    cover(freq == 48_000, 1);
    cover(freq > 1_000_000, 2);
}

const K20: u32 = 20_000;
const K40: u32 = 40_000;

harnesses! {
    fn h_c17_nec_13500() { accepts::<Nec>(13500, K20) }
    fn h_c17_nec_13500_not() { rejects::<Nec>(13500, 9, K20) }
    fn h_c17_nec_11250() { accepts::<Nec>(11250, K20) }
    fn h_c17_nec_11250_not() { rejects::<Nec>(11250, 9, K20) }
    fn h_c17_nec_1120() { accepts::<Nec>(1120, K20) }
    fn h_c17_nec_1120_not() { rejects::<Nec>(1120, 26, K20) }
    fn h_c17_nec_2250() { accepts::<Nec>(2250, K20) }
    fn h_c17_nec_2250_not() { rejects::<Nec>(2250, 26, K20) }
    fn h_c17_samsung_9000() { accepts::<SamsungNec>(9000, K20) }
    fn h_c17_samsung_9000_not() { rejects::<SamsungNec>(9000, 9, K20) }
    fn h_c17_samsung_6750() { accepts::<SamsungNec>(6750, K20) }
    fn h_c17_samsung_6750_not() { rejects::<SamsungNec>(6750, 9, K20) }
    fn h_c17_samsung_1120() { accepts::<SamsungNec>(1120, K20) }
    fn h_c17_samsung_1120_not() { rejects::<SamsungNec>(1120, 26, K20) }
    fn h_c17_samsung_2250() { accepts::<SamsungNec>(2250, K20) }
    fn h_c17_samsung_2250_not() { rejects::<SamsungNec>(2250, 26, K20) }
    fn h_c17_rc5_889() { accepts::<Rc5>(889, K20) }
    fn h_c17_rc5_889_not() { rejects::<Rc5>(889, 13, K20) }
    fn h_c17_rc5_1778() { accepts::<Rc5>(1778, K20) }
    fn h_c17_rc5_1778_not() { rejects::<Rc5>(1778, 13, K20) }
    fn h_c17_rc6_444() { accepts::<Rc6>(444, K40) }
    fn h_c17_rc6_444_not() { rejects::<Rc6>(444, 13, K40) }
    fn h_c17_rc6_888() { accepts::<Rc6>(888, K40) }
    fn h_c17_rc6_888_not() { rejects::<Rc6>(888, 13, K40) }
    fn h_c17_rc6_1332() { accepts::<Rc6>(1332, K40) }
    fn h_c17_rc6_1332_not() { rejects::<Rc6>(1332, 13, K40) }
    fn h_c17_rc6_1776() { accepts::<Rc6>(1776, K40) }
    fn h_c17_rc6_1776_not() { rejects::<Rc6>(1776, 13, K40) }
    fn h_c17_rc6_2220() { accepts::<Rc6>(2220, K40) }
    fn h_c17_rc6_2220_not() { rejects::<Rc6>(2220, 13, K40) }
    fn h_c17_rc6_2664() { accepts::<Rc6>(2664, K40) }
    fn h_c17_rc6_2664_not() { rejects::<Rc6>(2664, 13, K40) }
    fn h_c17_sbp_9000() { accepts::<Sbp>(9000, K20) }
    fn h_c17_sbp_9000_not() { rejects::<Sbp>(9000, 11, K20) }
    fn h_c17_sbp_5000() { accepts::<Sbp>(5000, K20) }
    fn h_c17_sbp_5000_not() { rejects::<Sbp>(5000, 11, K20) }
    fn h_c17_sbp_1000() { accepts::<Sbp>(1000, K20) }
    fn h_c17_sbp_1000_not() { rejects::<Sbp>(1000, 11, K20) }
    fn h_c17_sbp_2000() { accepts::<Sbp>(2000, K20) }
    fn h_c17_sbp_2000_not() { rejects::<Sbp>(2000, 11, K20) }
    fn h_c17_denon_5000() { accepts::<Denon>(5000, K20) }
    fn h_c17_denon_5000_not() { rejects::<Denon>(5000, 11, K20) }
    fn h_c17_denon_840() { accepts::<Denon>(840, K20) }
    fn h_c17_denon_840_not() { rejects::<Denon>(840, 11, K20) }
    fn h_c17_denon_1680() { accepts::<Denon>(1680, K20) }
    fn h_c17_denon_1680_not() { rejects::<Denon>(1680, 11, K20) }
}
