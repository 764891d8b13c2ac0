//! C23: commands made from an address and a command are faithful, or refused.
use crate::rt::*;
use infrared::cmd::{AddressCommand, Command};
use infrared::protocol::nec::{AppleNecCommand, NecCommand, NecCommandVariant, SamsungNecCommand};
use infrared::protocol::rc5::Rc5Command;
use infrared::protocol::rc6::Rc6Command;
use infrared::protocol::sbp::SbpCommand;

/// Some exactly for values that fit, and then the same values come out.
#[inline(always)]
fn faithful<C: AddressCommand>(amax: u32, cmax: u32) -> Option<(C, u32, u32)> {
    let (a, c) = (any_u32(1), any_u32(2));
    let x = C::create(a, c);
    let fits = a <= amax && c <= cmax;
    check(x.is_some() == fits, 1);
    cover(fits && a == amax && c == cmax, 1);
    cover(!fits, 2);
    let x = x?;
    check(x.address() == a, 2);
    check(x.command() == c, 3);
    check(!x.is_repeat(), 4);
    Some((x, a, c))
}

#[inline(always)]
fn nec() {
    if let Some((x, a, c)) = faithful::<NecCommand>(255, 255) {
        check(x.addr as u32 == a && x.cmd as u32 == c && !x.repeat, 5);
        check(x.pack() == a | (a ^ 0xFF) << 8 | c << 16 | (c ^ 0xFF) << 24, 6);
    }
    let (addr, cmd, repeat) = (any_u8(3), any_u8(4), any_bool(5));
    let y = NecCommand { addr, cmd, repeat };
    check(y.address() == addr as u32 && y.command() == cmd as u32 && y.is_repeat() == repeat, 7);
}
#[inline(always)]
fn samsung() {
    if let Some((x, a, c)) = faithful::<SamsungNecCommand>(255, 255) {
        check(x.addr as u32 == a && x.cmd as u32 == c && !x.repeat, 5);
        check(x.pack() == a | a << 8 | c << 16 | (c ^ 0xFF) << 24, 6);
    }
    let (addr, cmd, repeat) = (any_u8(3), any_u8(4), any_bool(5));
    let y = SamsungNecCommand { addr, cmd, repeat };
    check(y.address() == addr as u32 && y.command() == cmd as u32 && y.is_repeat() == repeat, 7);
}
#[inline(always)]
fn rc5() {
    if let Some((x, a, c)) = faithful::<Rc5Command>(31, 63) {
        check(x.addr as u32 == a && x.cmd as u32 == c && !x.toggle && x.start == 3, 5);
        check(x.pack() as u32 == 0x3000 | a << 6 | c, 6);
    }
    let x = any_u16(3);
    let y = Rc5Command::unpack(x);
    check(y.address() == (x >> 6 & 31) as u32 && y.command() == (x & 63) as u32, 7);
}
#[inline(always)]
fn rc6() {
    if let Some((x, a, c)) = faithful::<Rc6Command>(255, 255) {
        check(x.addr as u32 == a && x.cmd as u32 == c && !x.toggle, 5);
    }
    let (x, t) = (any_u16(3), any_bool(4));
    let y = Rc6Command::from_bits(x, t);
    check(y.address() == (x >> 8) as u32 && y.command() == (x & 255) as u32, 7);
}
#[inline(always)]
fn sbp() {
    if let Some((x, a, c)) = faithful::<SbpCommand>(0xFFFF, 255) {
        check(x.address as u32 == a && x.command as u32 == c && x.valid, 5);
    }
    let (a, x) = (any_u16(3), any_u32(4));
    let y = SbpCommand::unpack(a, x);
    check(y.address() == a as u32 && y.command() == x >> 4 & 0xFF && !y.is_repeat(), 7);
}
/// An Apple command has no address: it is not created from one, and its command number
/// tells all buttons apart.
#[inline(always)]
fn apple() {
    check(AppleNecCommand::create(any_u32(1), any_u32(2)).is_none(), 1);
    let (w, v) = (any_u32(3), any_u32(4));
    let (r, q) = (any_bool(5), any_bool(6));
    if let (Some(x), Some(y)) = (AppleNecCommand::unpack(w, r), AppleNecCommand::unpack(v, q)) {
        check(x.address() == 0, 2);
        check(x.is_repeat() == r, 3);
        let same = x.command_page == y.command_page && x.command == y.command;
        check(same == (x.command() == y.command()), 4);
        cover(!same, 1);
        cover(same && w != v, 2);
    }
}

harnesses! {
    fn h_c23_nec() { nec() }
    fn h_c23_samsung() { samsung() }
    fn h_c23_rc5() { rc5() }
    fn h_c23_rc6() { rc6() }
    fn h_c23_sbp() { sbp() }
    fn h_c23_apple() { apple() }
}
