//! C28: a frame of one protocol family is never reported by a receiver of another.
use crate::rt::*;
use crate::sig::*;
use infrared::protocol::{Denon, NecDebug, Rc5, Rc6, SamsungNec, Sbp};
use infrared::receiver::DecoderBuilder;

struct Air<P: DecoderBuilder<u32>> {
    r: Rx<P>,
    freq: u32,
    level: bool,
}
impl<P: DecoderBuilder<u32>> Air<P> {
    /// Silence, then the first rising edge of a frame.
    #[inline(always)]
    fn new(freq: u32) -> Self {
        let mut r = Rx::new(freq);
        let d = any_in(1, freq / 50, u32::MAX);
        none(r.event(d, true));
        Air { r, freq, level: true }
    }
    #[inline(always)]
    fn put(&mut self, tag: u32, us: u32, rising: bool) {
        none(self.r.event(jit(100 + tag, us, self.freq), rising));
        self.level = rising;
    }
    /// The end of the last mark, silence, and the beginning of something else.
    #[inline(always)]
    fn end(mut self, us: u32) {
        if self.level {
            none(self.r.event(jit(2, us, self.freq), false));
        }
        none(self.r.event(any_in(3, self.freq / 50, u32::MAX), true));
        cover(true, 1);
    }
}
#[inline(always)]
fn none<C, E>(x: Result<Option<C>, E>) {
    check(!matches!(x, Ok(Some(_))), 1);
}

#[inline(always)]
fn nec<P: DecoderBuilder<u32>>(freq: u32) {
    let mut a = Air::<P>::new(freq);
    gen_nec(9000, any_u32(10), |t, us, e, _| a.put(t, us, e));
    a.end(560);
}
#[inline(always)]
fn samsung<P: DecoderBuilder<u32>>(freq: u32) {
    let mut a = Air::<P>::new(freq);
    gen_nec(4500, any_u32(10), |t, us, e, _| a.put(t, us, e));
    a.end(560);
}
#[inline(always)]
fn rc5<P: DecoderBuilder<u32>>(freq: u32) {
    let mut a = Air::<P>::new(freq);
    gen_rc5(any_u16(10) & 0x1FFF, |t, us, e, _| a.put(t, us, e));
    a.end(889);
}
#[inline(always)]
fn rc6<P: DecoderBuilder<u32>>(freq: u32) {
    let mut a = Air::<P>::new(freq);
    gen_rc6(any_bool(11), any_u16(10), |t, us, e, _| a.put(t, us, e));
    a.end(444);
}
#[inline(always)]
fn sbp<P: DecoderBuilder<u32>>(freq: u32) {
    let mut a = Air::<P>::new(freq);
    gen_sbp(any_u16(10), any_u32(11) & 0xF_FFFF, |t, us, e, _| a.put(t, us, e));
    a.end(500);
}
#[inline(always)]
fn denon<P: DecoderBuilder<u32>>(freq: u32) {
    let mut a = Air::<P>::new(freq);
    gen_denon(any_u64(10) & 0xFFFF_FFFF_FFFF, |t, us, e, _| a.put(t, us, e));
    a.end(480);
}

const F: u32 = 40_000;
#[cfg(feature = "thorough")]
const G: u32 = 1_000_000;

harnesses! {
    fn h_c28_nec_samsung() { nec::<SamsungNec>(F) }
    fn h_c28_nec_rc5() { nec::<Rc5>(F) }
    fn h_c28_nec_rc6() { nec::<Rc6>(F) }
    fn h_c28_nec_sbp() { nec::<Sbp>(F) }
    fn h_c28_nec_denon() { nec::<Denon>(F) }
    fn h_c28_samsung_nec() { samsung::<NecDebug>(F) }
    fn h_c28_samsung_rc5() { samsung::<Rc5>(F) }
    fn h_c28_samsung_rc6() { samsung::<Rc6>(F) }
    fn h_c28_samsung_sbp() { samsung::<Sbp>(F) }
    fn h_c28_samsung_denon() { samsung::<Denon>(F) }
    fn h_c28_rc5_nec() { rc5::<NecDebug>(F) }
    fn h_c28_rc5_samsung() { rc5::<SamsungNec>(F) }
    fn h_c28_rc5_rc6() { rc5::<Rc6>(F) }
    fn h_c28_rc5_sbp() { rc5::<Sbp>(F) }
    fn h_c28_rc5_denon() { rc5::<Denon>(F) }
    fn h_c28_rc6_nec() { rc6::<NecDebug>(F) }
    fn h_c28_rc6_samsung() { rc6::<SamsungNec>(F) }
    fn h_c28_rc6_rc5() { rc6::<Rc5>(F) }
    fn h_c28_rc6_sbp() { rc6::<Sbp>(F) }
    fn h_c28_rc6_denon() { rc6::<Denon>(F) }
    fn h_c28_sbp_nec() { sbp::<NecDebug>(F) }
    fn h_c28_sbp_samsung() { sbp::<SamsungNec>(F) }
    fn h_c28_sbp_rc5() { sbp::<Rc5>(F) }
    fn h_c28_sbp_rc6() { sbp::<Rc6>(F) }
    fn h_c28_sbp_denon() { sbp::<Denon>(F) }
    fn h_c28_denon_nec() { denon::<NecDebug>(F) }
    fn h_c28_denon_samsung() { denon::<SamsungNec>(F) }
    fn h_c28_denon_rc5() { denon::<Rc5>(F) }
    fn h_c28_denon_rc6() { denon::<Rc6>(F) }
    fn h_c28_denon_sbp() { denon::<Sbp>(F) }
    #[cfg(feature = "thorough")]
    fn h_c28_rc6_rc5_1m() { rc6::<Rc5>(G) }
    #[cfg(feature = "thorough")]
    fn h_c28_rc5_rc6_1m() { rc5::<Rc6>(G) }
    #[cfg(feature = "thorough")]
    fn h_c28_samsung_sbp_1m() { samsung::<Sbp>(G) }
    #[cfg(feature = "thorough")]
    fn h_c28_sbp_samsung_1m() { sbp::<SamsungNec>(G) }
    #[cfg(feature = "thorough")]
    fn h_c28_denon_rc5_1m() { denon::<Rc5>(G) }
    #[cfg(feature = "thorough")]
    fn h_c28_nec_samsung_1m() { nec::<SamsungNec>(G) }
}
