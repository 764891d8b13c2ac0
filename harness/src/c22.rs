//! C22: packing and unpacking of protocol words.
use crate::rt::*;
use infrared::protocol::nec::{AppleNecCommand, Nec16Command, NecCommand, NecCommandVariant, NecDebugCmd, SamsungNecCommand};
use infrared::protocol::rc5::Rc5Command;
use infrared::protocol::rc6::Rc6Command;
use infrared::protocol::sbp::SbpCommand;

#[inline(always)]
fn byte(w: u32, i: u32) -> u8 {
    (w >> (8 * i)) as u8
}

#[inline(always)]
fn standard() {
    let (addr, cmd, repeat, r2) = (any_u8(1), any_u8(2), any_bool(3), any_bool(4));
    let w = NecCommand { addr, cmd, repeat }.pack();
    check(w == u32::from_le_bytes([addr, !addr, cmd, !cmd]), 1);
    check(NecCommand::validate(w), 2);
    check(NecCommand::unpack(w, r2) == Some(NecCommand { addr, cmd, repeat: r2 }), 3);
    let x = any_u32(5);
    check(NecCommand::validate(x) == (byte(x, 0) == !byte(x, 1) && byte(x, 2) == !byte(x, 3)), 4);
    if NecCommand::validate(x) {
        match NecCommand::unpack(x, r2) {
            Some(c) => check(c.addr == byte(x, 0) && c.cmd == byte(x, 2) && c.repeat == r2 && c.pack() == x, 5),
            None => check(false, 6),
        }
    }
    cover(NecCommand::validate(x), 1);
    cover(!NecCommand::validate(x), 2);
}
#[inline(always)]
fn samsung() {
    let (addr, cmd, repeat, r2) = (any_u8(1), any_u8(2), any_bool(3), any_bool(4));
    let w = SamsungNecCommand { addr, cmd, repeat }.pack();
    check(w == u32::from_le_bytes([addr, addr, cmd, !cmd]), 1);
    check(SamsungNecCommand::validate(w), 2);
    check(SamsungNecCommand::unpack(w, r2) == Some(SamsungNecCommand { addr, cmd, repeat: r2 }), 3);
    let x = any_u32(5);
    check(SamsungNecCommand::validate(x) == (byte(x, 0) == byte(x, 1) && byte(x, 2) == !byte(x, 3)), 4);
    if SamsungNecCommand::validate(x) {
        match SamsungNecCommand::unpack(x, r2) {
            Some(c) => check(c.addr == byte(x, 0) && c.cmd == byte(x, 2) && c.repeat == r2 && c.pack() == x, 5),
            None => check(false, 6),
        }
    }
    cover(SamsungNecCommand::validate(x), 1);
    cover(!SamsungNecCommand::validate(x), 2);
}
#[inline(always)]
fn nec16() {
    let (addr, cmd, repeat, r2) = (any_u16(1), any_u8(2), any_bool(3), any_bool(4));
    let w = Nec16Command { addr, cmd, repeat }.pack();
    check(w == addr as u32 | (cmd as u32) << 16 | (!cmd as u32) << 24, 1);
    check(Nec16Command::validate(w), 2);
    check(Nec16Command::unpack(w, r2) == Some(Nec16Command { addr, cmd, repeat: r2 }), 3);
    let x = any_u32(5);
    check(Nec16Command::validate(x) == (byte(x, 2) == !byte(x, 3)), 4);
    if Nec16Command::validate(x) {
        match Nec16Command::unpack(x, r2) {
            Some(c) => check(c.addr == x as u16 && c.cmd == byte(x, 2) && c.repeat == r2 && c.pack() == x, 5),
            None => check(false, 6),
        }
    }
    cover(Nec16Command::validate(x), 1);
    cover(!Nec16Command::validate(x), 2);
}
#[inline(always)]
fn raw() {
    let (x, r) = (any_u32(1), any_bool(2));
    check(NecDebugCmd { bits: x }.pack() == x, 1);
    check(NecDebugCmd::validate(x), 2);
    check(NecDebugCmd::unpack(x, r) == Some(NecDebugCmd { bits: x }), 3);
    cover(x == 7, 1);
}
#[inline(always)]
fn odd(mut x: u32) -> bool {
    x ^= x >> 16;
    x ^= x >> 8;
    x ^= x >> 4;
    x ^= x >> 2;
    x ^= x >> 1;
    x & 1 == 1
}
#[inline(always)]
fn apple() {
    let (page, command, device_id) = (any_in(1, 0, 31) as u8, any_in(2, 0, 127) as u8, any_u8(3));
    let (repeat, r2) = (any_bool(4), any_bool(5));
    let w = AppleNecCommand { command_page: page, command, device_id, repeat }.pack();
    check(w & !0x1_0000 == page as u32 | 0x43F << 5 | (command as u32) << 17 | (device_id as u32) << 24, 1);
    check(odd(w), 2);
    check(AppleNecCommand::validate(w), 3);
    check(AppleNecCommand::unpack(w, r2) == Some(AppleNecCommand { command_page: page, command, device_id, repeat: r2 }), 4);
    let x = any_u32(6);
    let ok = x >> 5 & 0x7FF == 0x43F && odd(x);
    check(AppleNecCommand::validate(x) == ok, 5);
    match AppleNecCommand::unpack(x, r2) {
        Some(c) => {
            check(ok, 6);
            check(c.command_page as u32 == x & 0x1F && c.command as u32 == x >> 17 & 0x7F, 7);
            check(c.device_id == byte(x, 3) && c.repeat == r2, 8);
            check(c.pack() == x, 9);
        }
        None => check(!ok, 10),
    }
    cover(ok, 1);
    cover(!ok, 2);
}
#[inline(always)]
fn rc5() {
    let (addr, cmd, start, toggle) = (any_in(1, 0, 31) as u8, any_in(2, 0, 63) as u8, any_in(3, 0, 3) as u8, any_bool(4));
    let c = Rc5Command { addr, cmd, start, toggle };
    let w = c.pack();
    check(w == cmd as u16 | (addr as u16) << 6 | (toggle as u16) << 11 | (start as u16) << 12, 1);
    check(Rc5Command::unpack(w) == c, 2);
    let x = any_u16(5);
    let d = Rc5Command::unpack(x);
    check(d.cmd as u16 == x & 63 && d.addr as u16 == x >> 6 & 31, 3);
    check(d.toggle == (x >> 11 & 1 == 1) && d.start as u16 == x >> 12 & 3, 4);
    check(d.pack() == x & 0x3FFF, 5);
    let n = Rc5Command::new(addr, cmd, toggle);
    check(n.addr == addr && n.cmd == cmd && n.toggle == toggle && n.start == 3, 6);
    cover(toggle && start == 1, 1);
}
#[inline(always)]
fn rc6() {
    let (x, toggle, a, b) = (any_u16(1), any_bool(2), any_u8(3), any_u8(4));
    let c = Rc6Command::from_bits(x, toggle);
    check(c.addr as u16 == x >> 8 && c.cmd as u16 == x & 0xFF && c.toggle == toggle, 1);
    let c = Rc6Command::new(a, b);
    check(c.addr == a && c.cmd == b && !c.toggle, 2);
    cover(toggle, 1);
}
#[inline(always)]
fn sbp() {
    let (a, x) = (any_u16(1), any_u32(2));
    let c = SbpCommand::unpack(a, x);
    check(c.address == a, 1);
    check(c.command == (x >> 4) as u8, 2);
    check(c.valid == ((x >> 4) as u8 == !((x >> 12) as u8)), 3);
    cover(c.valid, 1);
    cover(!c.valid, 2);
}

harnesses! {
    fn h_c22_standard() { standard() }
    fn h_c22_samsung() { samsung() }
    fn h_c22_nec16() { nec16() }
    fn h_c22_raw() { raw() }
    fn h_c22_apple() { apple() }
    fn h_c22_rc5() { rc5() }
    fn h_c22_rc6() { rc6() }
    fn h_c22_sbp() { sbp() }
}
