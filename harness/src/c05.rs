//! C05: Denon frames within tolerance decode to exactly their 48 bits.
use crate::rt::*;
use crate::sig::*;
use crate::wire::*;
use infrared::protocol::Denon;

const PRE: u32 = if THOROUGH { 16 } else { 6 };

#[inline(always)]
fn denon(freq: u32) {
    let bits = any_u64(1) & 0xFFFF_FFFF_FFFF;
    let mut r: Rx<Denon> = Rx::new(freq);
    noise(&mut r, PRE, 1000);
    gap(&mut r, freq, 999);
    let mut out = None;
    gen_denon(bits, |tag, us, rising, last| {
        let x = r.event(jit(100 + tag, us, freq), rising);
        if last {
            check(x.is_ok(), 1);
            out = x.ok().flatten();
        } else {
            quiet(x, 2);
        }
    });
    check(out.is_some(), 3);
    if let Some(c) = out {
        check(c.bits == bits, 4);
        observe(c.bits, 1);
        cover(bits == 0x8F00_1234_5678, 1);
    }
    quiet(r.event(jit(300, 480, freq), false), 7);
}

harnesses! {
    fn h_c05_1m() { denon(1_000_000) }
    fn h_c05_40k() { denon(40_000) }
    fn h_c05_second_denon() { second::<Denon>(40_000) }
    fn h_c05_broken_denon() { broken::<Denon>(40_000, 98) }
    #[cfg(feature = "thorough")]
    fn h_c05_44k() { denon(44_100) }
    #[cfg(feature = "thorough")]
    fn h_c05_100k() { denon(100_000) }
    #[cfg(feature = "thorough")]
    fn h_c05_8m() { denon(8_000_000) }
    #[cfg(feature = "thorough")]
    fn h_c05_48m() { denon(48_000_000) }
}
