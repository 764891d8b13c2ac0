//! Protocols with their frames and payloads (independent of the crate under test).
#![allow(dead_code)]
use crate::rt::*;
use crate::sig::*;
use infrared::protocol::denon::DenonCommand;
use infrared::protocol::nec::{AppleNecCommand, Nec16Command, NecCommand, NecDebugCmd, SamsungNecCommand};
use infrared::protocol::rc5::Rc5Command;
use infrared::protocol::rc6::Rc6Command;
use infrared::protocol::sbp::SbpCommand;
use infrared::protocol::{AppleNec, Denon, Nec, Nec16, NecDebug, Rc5, Rc6, SamsungNec, Sbp};
use infrared::receiver::DecoderBuilder;

/// Payload of a command, and whether it is a repeat.
pub trait Cmd {
    fn bits(&self) -> u64;
    fn again(&self) -> bool {
        false
    }
}
impl Cmd for NecCommand {
    #[inline(always)]
    fn bits(&self) -> u64 {
        self.addr as u64 | (self.cmd as u64) << 8
    }
    #[inline(always)]
    fn again(&self) -> bool {
        self.repeat
    }
}
impl Cmd for SamsungNecCommand {
    #[inline(always)]
    fn bits(&self) -> u64 {
        self.addr as u64 | (self.cmd as u64) << 8
    }
    #[inline(always)]
    fn again(&self) -> bool {
        self.repeat
    }
}
impl Cmd for Nec16Command {
    #[inline(always)]
    fn bits(&self) -> u64 {
        self.addr as u64 | (self.cmd as u64) << 16
    }
    #[inline(always)]
    fn again(&self) -> bool {
        self.repeat
    }
}
impl Cmd for NecDebugCmd {
    #[inline(always)]
    fn bits(&self) -> u64 {
        self.bits as u64
    }
}
impl Cmd for Rc5Command {
    #[inline(always)]
    fn bits(&self) -> u64 {
        self.cmd as u64 | (self.addr as u64) << 6 | (self.toggle as u64) << 11 | (self.start as u64 & 1) << 12
    }
}
impl Cmd for Rc6Command {
    #[inline(always)]
    fn bits(&self) -> u64 {
        self.cmd as u64 | (self.addr as u64) << 8 | (self.toggle as u64) << 16
    }
}
impl Cmd for SbpCommand {
    #[inline(always)]
    fn bits(&self) -> u64 {
        self.address as u64 | (self.command as u64) << 16 | (self.valid as u64) << 24
    }
}
impl Cmd for DenonCommand {
    #[inline(always)]
    fn bits(&self) -> u64 {
        self.bits
    }
}

/// A protocol with a frame generator.
pub trait Wire: DecoderBuilder<u32> {
    /// length of the closing mark
    const STOP: u32;
    /// an arbitrary payload, as seen on the wire and as reported
    fn any(tag: u32) -> (u64, u64);
    fn send(w: u64, put: impl FnMut(u32, u32, bool, bool));
}
impl Wire for Nec {
    const STOP: u32 = 560;
    #[inline(always)]
    fn any(tag: u32) -> (u64, u64) {
        let (a, c) = (any_u8(tag), any_u8(tag + 1));
        (u32::from_le_bytes([a, !a, c, !c]) as u64, a as u64 | (c as u64) << 8)
    }
    #[inline(always)]
    fn send(w: u64, put: impl FnMut(u32, u32, bool, bool)) {
        gen_nec(9000, w as u32, put)
    }
}
impl Wire for SamsungNec {
    const STOP: u32 = 560;
    #[inline(always)]
    fn any(tag: u32) -> (u64, u64) {
        let (a, c) = (any_u8(tag), any_u8(tag + 1));
        (u32::from_le_bytes([a, a, c, !c]) as u64, a as u64 | (c as u64) << 8)
    }
    #[inline(always)]
    fn send(w: u64, put: impl FnMut(u32, u32, bool, bool)) {
        gen_nec(4500, w as u32, put)
    }
}
impl Wire for Nec16 {
    const STOP: u32 = 560;
    #[inline(always)]
    fn any(tag: u32) -> (u64, u64) {
        let (a, c) = (any_u16(tag), any_u8(tag + 1));
        (a as u64 | (c as u64) << 16 | (!c as u64) << 24, a as u64 | (c as u64) << 16)
    }
    #[inline(always)]
    fn send(w: u64, put: impl FnMut(u32, u32, bool, bool)) {
        gen_nec(9000, w as u32, put)
    }
}
impl Wire for NecDebug {
    const STOP: u32 = 560;
    #[inline(always)]
    fn any(tag: u32) -> (u64, u64) {
        let w = any_u32(tag) as u64;
        (w, w)
    }
    #[inline(always)]
    fn send(w: u64, put: impl FnMut(u32, u32, bool, bool)) {
        gen_nec(9000, w as u32, put)
    }
}
impl Wire for Rc5 {
    const STOP: u32 = 889;
    #[inline(always)]
    fn any(tag: u32) -> (u64, u64) {
        let w = any_u16(tag) as u64 & 0x1FFF;
        (w, w)
    }
    #[inline(always)]
    fn send(w: u64, put: impl FnMut(u32, u32, bool, bool)) {
        gen_rc5(w as u16, put)
    }
}
impl Wire for Rc6 {
    const STOP: u32 = 444;
    #[inline(always)]
    fn any(tag: u32) -> (u64, u64) {
        let w = any_u16(tag) as u64 | (any_bool(tag + 1) as u64) << 16;
        (w, w)
    }
    #[inline(always)]
    fn send(w: u64, put: impl FnMut(u32, u32, bool, bool)) {
        gen_rc6(w >> 16 & 1 == 1, w as u16, put)
    }
}
impl Wire for Sbp {
    const STOP: u32 = 500;
    #[inline(always)]
    fn any(tag: u32) -> (u64, u64) {
        let (a, d) = (any_u16(tag) as u64, any_u32(tag + 1) as u64 & 0xF_FFFF);
        let (c, n) = (d >> 4 & 0xFF, d >> 12 & 0xFF);
        (a | d << 16, a | c << 16 | ((c ^ n == 0xFF) as u64) << 24)
    }
    #[inline(always)]
    fn send(w: u64, put: impl FnMut(u32, u32, bool, bool)) {
        gen_sbp(w as u16, (w >> 16) as u32, put)
    }
}
impl Wire for Denon {
    const STOP: u32 = 480;
    #[inline(always)]
    fn any(tag: u32) -> (u64, u64) {
        let w = any_u64(tag) & 0xFFFF_FFFF_FFFF;
        (w, w)
    }
    #[inline(always)]
    fn send(w: u64, put: impl FnMut(u32, u32, bool, bool)) {
        gen_denon(w, put)
    }
}

impl Cmd for AppleNecCommand {
    #[inline(always)]
    fn bits(&self) -> u64 {
        self.command_page as u64 | (self.command as u64) << 8 | (self.device_id as u64) << 16
    }
    #[inline(always)]
    fn again(&self) -> bool {
        self.repeat
    }
}
impl Wire for AppleNec {
    const STOP: u32 = 560;
    #[inline(always)]
    fn any(tag: u32) -> (u64, u64) {
        let (p, c, d) = (any_in(tag, 0, 31), any_in(tag + 1, 0, 127), any_u8(tag + 2) as u32);
        let w = p | 0x43F << 5 | c << 17 | d << 24;
        let w = if w.count_ones() % 2 == 0 { w | 1 << 16 } else { w };
        (w as u64, p as u64 | (c as u64) << 8 | (d as u64) << 16)
    }
    #[inline(always)]
    fn send(w: u64, put: impl FnMut(u32, u32, bool, bool)) {
        gen_nec(9000, w as u32, put)
    }
}

/// `us` microseconds in ticks.
#[inline(always)]
pub fn exact(us: u32, freq: u32) -> u32 {
    (us as u64 * freq as u64 / 1_000_000) as u32
}

/// An earlier frame with a payload of its own, exact durations, broken off after the edges
/// below `cut` (u32::MAX: complete), and the end of its last mark.
#[inline(always)]
pub fn earlier<P: Wire>(r: &mut Rx<P>, freq: u32, tag: u32, cut: u32) {
    let _ = r.event(any_in(tag + 5, freq / 50, u32::MAX), true);
    let (w, _) = P::any(tag);
    let mut level = true;
    P::send(w, |t, us, e, _| {
        if t < cut {
            let _ = r.event(exact(us, freq), e);
            level = e;
        }
    });
    if level {
        let _ = r.event(exact(P::STOP, freq), false);
    }
}
/// A complete frame with jitter: one report, at its last edge, of exactly its payload.
#[inline(always)]
pub fn exactly<P: Wire>(r: &mut Rx<P>, freq: u32, tag: u32)
where
    P::Cmd: Cmd,
{
    gap(r, freq, tag + 5);
    let (w, want) = P::any(tag);
    let mut level = true;
    P::send(w, |t, us, e, last| {
        let x = r.event(jit(tag + 10 + t, us, freq), e);
        level = e;
        if last {
            match x {
                Ok(Some(c)) => {
                    check(c.bits() == want && !c.again(), tag + 1);
                    observe(c.bits(), 1);
                }
                _ => check(false, tag + 2),
            }
        } else {
            check(matches!(x, Ok(None)), tag + 3);
        }
    });
    if level {
        let x = r.event(jit(tag + 4, P::STOP, freq), false);
        check(matches!(x, Ok(None)), tag + 4);
    }
}
/// What came before: a complete frame.
#[inline(always)]
pub fn second<P: Wire>(freq: u32)
where
    P::Cmd: Cmd,
{
    let mut r: Rx<P> = Rx::new(freq);
    earlier(&mut r, freq, 2000, u32::MAX);
    exactly(&mut r, freq, 3000);
    cover(true, 1);
}
/// What came before: a frame broken off anywhere.
#[inline(always)]
pub fn broken<P: Wire>(freq: u32, edges: u32)
where
    P::Cmd: Cmd,
{
    let mut r: Rx<P> = Rx::new(freq);
    let cut = any_in(1, 0, edges - 1);
    earlier(&mut r, freq, 2000, cut);
    exactly(&mut r, freq, 3000);
    cover(cut == edges / 2, 1);
}
