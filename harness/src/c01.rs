//! C01: NEC-family frames within tolerance decode to exactly their bits.
use crate::rt::*;
use crate::sig::*;
use crate::wire::*;
use infrared::protocol::nec::*;
use infrared::protocol::{AppleNec, Nec16, NecDebug, SamsungNec};

const PRE: u32 = if THOROUGH { 16 } else { 4 };

/// Sends one frame to a receiver that first saw arbitrary noise and a silence.
#[inline(always)]
fn frame<C: NecCommandVariant>(freq: u32, header_us: u32, bits: u32) -> Option<C> {
    let mut r: Rx<Nec<C>> = Rx::new(freq);
    noise(&mut r, PRE, 1000);
    gap(&mut r, freq, 999);
    quiet(r.event(jit(100, header_us, freq), false), 1);
    quiet(r.event(jit(101, 4500, freq), true), 2);
    let mut out = None;
    for i in 0..32 {
        quiet(r.event(jit(200 + 2 * i, 560, freq), false), 3);
        let us = if bits >> i & 1 == 1 { 1690 } else { 560 };
        let x = r.event(jit(201 + 2 * i, us, freq), true);
        if i < 31 {
            quiet(x, 4);
        } else {
            check(x.is_ok(), 5);
            out = x.ok().flatten();
        }
    }
    // the stop mark ends: nothing more
    quiet(r.event(jit(300, 560, freq), false), 6);
    out
}

#[inline(always)]
fn std(freq: u32) {
    let (addr, cmd) = (any_u8(1), any_u8(2));
    let bits = addr as u32 | (!addr as u32) << 8 | (cmd as u32) << 16 | (!cmd as u32) << 24;
    let c: Option<NecCommand> = frame(freq, 9000, bits);
    check(c.is_some(), 10);
    if let Some(c) = c {
        check(c.addr == addr, 11);
        check(c.cmd == cmd, 12);
        check(!c.repeat, 13);
        observe(c.addr as u64, 1);
        observe(c.cmd as u64, 2);
        cover(true, 1);
        cover(addr == 0xA5 && cmd == 0x3C, 2);
    }
}
#[inline(always)]
fn nec16(freq: u32) {
    let (addr, cmd) = (any_u16(1), any_u8(2));
    let bits = addr as u32 | (cmd as u32) << 16 | (!cmd as u32) << 24;
    let c: Option<Nec16Command> = frame(freq, 9000, bits);
    check(c.is_some(), 20);
    if let Some(c) = c {
        check(c.addr == addr, 21);
        check(c.cmd == cmd, 22);
        check(!c.repeat, 23);
        observe(c.addr as u64, 1);
        observe(c.cmd as u64, 2);
        cover(addr == 0xA5F0, 1);
    }
}
#[inline(always)]
fn samsung(freq: u32) {
    let (addr, cmd) = (any_u8(1), any_u8(2));
    let bits = addr as u32 | (addr as u32) << 8 | (cmd as u32) << 16 | (!cmd as u32) << 24;
    let c: Option<SamsungNecCommand> = frame(freq, 4500, bits);
    check(c.is_some(), 30);
    if let Some(c) = c {
        check(c.addr == addr, 31);
        check(c.cmd == cmd, 32);
        check(!c.repeat, 33);
        observe(c.addr as u64, 1);
        observe(c.cmd as u64, 2);
        cover(addr == 0xA5 && cmd == 0x3C, 1);
    }
}
#[inline(always)]
fn debug(freq: u32) {
    let bits = any_u32(1);
    let c: Option<NecDebugCmd> = frame(freq, 9000, bits);
    check(c.is_some(), 40);
    if let Some(c) = c {
        check(c.bits == bits, 41);
        observe(c.bits as u64, 1);
        cover(c.bits == 0xDEAD_BEEF, 1);
    }
}
#[inline(always)]
fn apple(freq: u32) {
    let bits = any_u32(1);
    let valid = (bits >> 5) & 0x7FF == 0x43F && bits.count_ones() % 2 == 1;
    let c: Option<AppleNecCommand> = frame(freq, 9000, bits);
    check(c.is_some() == valid, 50);
    if let Some(c) = c {
        check(c.command_page as u32 == bits & 0x1F, 51);
        check(c.command as u32 == bits >> 17 & 0x7F, 52);
        check(c.device_id as u32 == bits >> 24, 53);
        check(!c.repeat, 54);
        observe(c.command as u64, 1);
        cover(true, 1);
    } else {
        cover(bits >> 5 & 0x7FF == 0x43F, 2);
    }
}

harnesses! {
    fn h_c01_std_1m() { std(1_000_000) }
    fn h_c01_std_40k() { std(40_000) }
    fn h_c01_nec16_1m() { nec16(1_000_000) }
    fn h_c01_samsung_1m() { samsung(1_000_000) }
    fn h_c01_samsung_40k() { samsung(40_000) }
    fn h_c01_debug_1m() { debug(1_000_000) }
    fn h_c01_debug_40k() { debug(40_000) }
    fn h_c01_apple_1m() { apple(1_000_000) }
    fn h_c01_second_std() { second::<Nec>(40_000) }
    fn h_c01_broken_std() { broken::<Nec>(40_000, 66) }
    fn h_c01_second_samsung() { second::<SamsungNec>(40_000) }
    fn h_c01_broken_samsung() { broken::<SamsungNec>(40_000, 66) }
    fn h_c01_second_nec16() { second::<Nec16>(40_000) }
    fn h_c01_broken_nec16() { broken::<Nec16>(40_000, 66) }
    fn h_c01_second_raw() { second::<NecDebug>(1_000_000) }
    fn h_c01_broken_raw() { broken::<NecDebug>(1_000_000, 66) }
    fn h_c01_second_apple() { second::<AppleNec>(40_000) }
    fn h_c01_broken_apple() { broken::<AppleNec>(40_000, 66) }
    #[cfg(feature = "thorough")]
    fn h_c01_debug_20k() { debug(20_000) }
    #[cfg(feature = "thorough")]
    fn h_c01_debug_38k() { debug(38_000) }
    #[cfg(feature = "thorough")]
    fn h_c01_samsung_44k() { samsung(44_100) }
    #[cfg(feature = "thorough")]
    fn h_c01_std_8m() { std(8_000_000) }
    #[cfg(feature = "thorough")]
    fn h_c01_nec16_100k() { nec16(100_000) }
    #[cfg(feature = "thorough")]
    fn h_c01_apple_48m() { apple(48_000_000) }
}
