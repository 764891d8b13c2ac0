//! C24: generic commands and protocol numbers.
use crate::rt::*;
use infrared::cmd::{AddressCommand, AnyCommand};
use infrared::protocol::denon::DenonCommand;
use infrared::protocol::nec::{AppleNecCommand, NecCommand, NecCommandVariant, SamsungNecCommand};
use infrared::protocol::rc5::Rc5Command;
use infrared::protocol::rc6::Rc6Command;
use infrared::protocol::sbp::SbpCommand;
use infrared::ProtocolId;

#[inline(always)]
fn is(x: AnyCommand, protocol: ProtocolId, address: u32, command: u32, repeat: bool) {
    check(x.protocol == protocol, 1);
    check(x.address == address, 2);
    check(x.command == command, 3);
    check(x.repeat == repeat, 4);
}

#[inline(always)]
fn nec() {
    let (addr, cmd, repeat) = (any_u8(1), any_u8(2), any_bool(3));
    is(NecCommand { addr, cmd, repeat }.into(), ProtocolId::Nec, addr as u32, cmd as u32, repeat);
    is(SamsungNecCommand { addr, cmd, repeat }.into(), ProtocolId::NecSamsung, addr as u32, cmd as u32, repeat);
    cover(repeat, 1);
}
#[inline(always)]
fn apple() {
    let (w, repeat) = (any_u32(1), any_bool(2));
    if let Some(c) = AppleNecCommand::unpack(w, repeat) {
        let n = c.command();
        let x: AnyCommand = c.into();
        is(x, ProtocolId::NecApple, 0, n, repeat);
        // page and command are both in there
        check(n & 0x7F == w >> 17 & 0x7F && n >> 7 == w & 0x1F, 5);
        cover(n > 128, 1);
    }
}
#[inline(always)]
fn rcs() {
    let (w, t) = (any_u16(1), any_bool(2));
    is(Rc5Command::unpack(w).into(), ProtocolId::Rc5, (w >> 6 & 31) as u32, (w & 63) as u32, w >> 11 & 1 == 1);
    is(Rc6Command::from_bits(w, t).into(), ProtocolId::Rc6, (w >> 8) as u32, (w & 255) as u32, t);
    cover(t, 1);
}
#[inline(always)]
fn sbp() {
    let (a, x) = (any_u16(1), any_u32(2));
    is(SbpCommand::unpack(a, x).into(), ProtocolId::Sbp, a as u32, x >> 4 & 255, false);
    cover(a > 1, 1);
}
#[inline(always)]
fn denon() {
    let bits = any_u64(1);
    let x: AnyCommand = DenonCommand { bits }.into();
    check(x.raw == bits, 11);
    is(x, ProtocolId::Denon, 0, 0, false);
    cover(bits > 1 << 40, 1);
}
#[inline(always)]
fn ids() {
    let n = any_u8(1);
    let id = ProtocolId::from(n);
    let known = 1 <= n && n <= 8;
    check((id == ProtocolId::Unknown) == !known, 21);
    check(id as u8 == if known { n } else { 255 }, 22);
    let m = any_in(2, 0, 8) as usize;
    const ALL: [ProtocolId; 9] = [
        ProtocolId::Nec,
        ProtocolId::Nec16,
        ProtocolId::NecSamsung,
        ProtocolId::NecApple,
        ProtocolId::Rc5,
        ProtocolId::Rc6,
        ProtocolId::Sbp,
        ProtocolId::Denon,
        ProtocolId::Unknown,
    ];
    check(ProtocolId::from(ALL[m] as u8) == ALL[m], 23);
    check(m == 8 || ALL[m] as u8 as usize == m + 1, 24);
    check(NecCommand::ID as u8 == 1 && SamsungNecCommand::ID as u8 == 3 && AppleNecCommand::ID as u8 == 4, 25);
    check(Rc5Command::ID as u8 == 5 && Rc6Command::ID as u8 == 6 && SbpCommand::ID as u8 == 7, 26);
    cover(known, 1);
    cover(!known, 2);
}

harnesses! {
    fn h_c24_nec() { nec() }
    fn h_c24_apple() { apple() }
    fn h_c24_rcs() { rcs() }
    fn h_c24_sbp() { sbp() }
    fn h_c24_denon() { denon() }
    fn h_c24_ids() { ids() }
}
