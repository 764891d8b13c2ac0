//! C03: RC6 (mode 0) frames within tolerance decode to exactly their bits.
use crate::rt::*;
use crate::sig::*;
use crate::wire::*;
use infrared::protocol::Rc6;

const PRE: u32 = if THOROUGH { 24 } else { 6 };

#[inline(always)]
fn rc6(freq: u32) {
    let (addr, cmd, toggle) = (any_u8(1), any_u8(2), any_bool(3));
    let word = (addr as u16) << 8 | cmd as u16;
    let mut r: Rx<Rc6> = Rx::new(freq);
    noise(&mut r, PRE, 1000);
    gap(&mut r, freq, 999);
    let mut out = None;
    gen_rc6(toggle, word, |tag, us, rising, last| {
        let x = r.event(jit(100 + tag, us, freq), rising);
        if last {
            check(x.is_ok(), 1);
            out = x.ok().flatten();
        } else {
            quiet(x, 2);
        }
    });
    check(out.is_some(), 3);
    if let Some(c) = out {
        check(c.addr == addr, 4);
        check(c.cmd == cmd, 5);
        check(c.toggle == toggle, 6);
        observe(c.addr as u64, 1);
        observe(c.cmd as u64, 2);
        cover(word == 0xA53C && toggle, 1);
        cover(word == 0xFF01 && !toggle, 2);
    }
    // a mark that is still on ends half a bit later: nothing more
    if word & 1 == 0 {
        quiet(r.event(jit(300, 444, freq), false), 8);
    }
}

harnesses! {
    fn h_c03_1m() { rc6(1_000_000) }
    fn h_c03_40k() { rc6(40_000) }
    fn h_c03_second_rc6() { second::<Rc6>(40_000) }
    fn h_c03_broken_rc6() { broken::<Rc6>(40_000, 60) }
    #[cfg(feature = "thorough")]
    fn h_c03_44k() { rc6(44_100) }
    #[cfg(feature = "thorough")]
    fn h_c03_100k() { rc6(100_000) }
    #[cfg(feature = "thorough")]
    fn h_c03_8m() { rc6(8_000_000) }
    #[cfg(feature = "thorough")]
    fn h_c03_48m() { rc6(48_000_000) }
}
