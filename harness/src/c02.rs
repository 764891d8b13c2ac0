//! C02: RC5 frames within tolerance decode to exactly their bits.
use crate::rt::*;
use crate::sig::*;
use crate::wire::*;
use infrared::protocol::Rc5;

const PRE: u32 = if THOROUGH { 24 } else { 6 };

#[inline(always)]
fn rc5(freq: u32) {
    let word = any_u16(1) & 0x1FFF; // the 13 bits after the first start bit
    let mut r: Rx<Rc5> = Rx::new(freq);
    noise(&mut r, PRE, 1000);
    gap(&mut r, freq, 999);
    let mut out = None;
    gen_rc5(word, |tag, us, rising, last| {
        let x = r.event(jit(100 + tag, us, freq), rising);
        if last {
            check(x.is_ok(), 1);
            out = x.ok().flatten();
        } else {
            quiet(x, 2);
        }
    });
    check(out.is_some(), 3);
    if let Some(c) = out {
        check(c.start as u16 == 2 | word >> 12, 4);
        check(c.toggle == (word >> 11 & 1 == 1), 5);
        check(c.addr as u16 == word >> 6 & 0x1F, 6);
        check(c.cmd as u16 == word & 0x3F, 7);
        observe(c.addr as u64, 1);
        observe(c.cmd as u64, 2);
        cover(word == 0x1AAA, 1);
        cover(word == 0x0F35, 2);
    }
    // a mark that is still on ends half a bit later: nothing more
    if word & 1 == 1 {
        quiet(r.event(jit(300, 889, freq), false), 8);
    }
}

harnesses! {
    fn h_c02_1m() { rc5(1_000_000) }
    fn h_c02_40k() { rc5(40_000) }
    fn h_c02_20k() { rc5(20_000) }
    fn h_c02_second_rc5() { second::<Rc5>(40_000) }
    fn h_c02_broken_rc5() { broken::<Rc5>(40_000, 26) }
    #[cfg(feature = "thorough")]
    fn h_c02_38k() { rc5(38_000) }
    #[cfg(feature = "thorough")]
    fn h_c02_44k() { rc5(44_100) }
    #[cfg(feature = "thorough")]
    fn h_c02_8m() { rc5(8_000_000) }
    #[cfg(feature = "thorough")]
    fn h_c02_48m() { rc5(48_000_000) }
}
