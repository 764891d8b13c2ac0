//! C04: Samsung Blu-ray frames within tolerance decode to exactly their fields.
use crate::rt::*;
use crate::sig::*;
use crate::wire::*;
use infrared::protocol::Sbp;

const PRE: u32 = if THOROUGH { 16 } else { 4 };

#[inline(always)]
fn sbp(freq: u32) {
    let address = any_u16(1);
    let data = any_u32(2) & 0xF_FFFF;
    let (cmd, inv) = ((data >> 4) as u8, (data >> 12) as u8);
    let mut r: Rx<Sbp> = Rx::new(freq);
    noise(&mut r, PRE, 1000);
    gap(&mut r, freq, 999);
    let mut out = None;
    gen_sbp(address, data, |tag, us, rising, last| {
        let x = r.event(jit(100 + tag, us, freq), rising);
        if last {
            check(x.is_ok(), 1);
            out = x.ok().flatten();
        } else {
            quiet(x, 2);
        }
    });
    check(out.is_some(), 3);
    if let Some(c) = out {
        check(c.address == address, 4);
        check(c.command == cmd, 5);
        check(c.valid == (cmd == !inv), 6);
        observe(c.address as u64, 1);
        observe(c.command as u64, 2);
        cover(c.valid && address == 0x8001, 1);
        cover(!c.valid, 2);
    }
    quiet(r.event(jit(300, 500, freq), false), 7);
}

harnesses! {
    fn h_c04_1m() { sbp(1_000_000) }
    fn h_c04_40k() { sbp(40_000) }
    fn h_c04_second_sbp() { second::<Sbp>(40_000) }
    fn h_c04_broken_sbp() { broken::<Sbp>(40_000, 82) }
    #[cfg(feature = "thorough")]
    fn h_c04_44k() { sbp(44_100) }
    #[cfg(feature = "thorough")]
    fn h_c04_100k() { sbp(100_000) }
    #[cfg(feature = "thorough")]
    fn h_c04_8m() { sbp(8_000_000) }
    #[cfg(feature = "thorough")]
    fn h_c04_48m() { sbp(48_000_000) }
}
