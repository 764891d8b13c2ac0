//! C18: what the encoders send, the decoders of the same protocol report.
use crate::rt::*;
use crate::sig::*;
use infrared::protocol::nec::{AppleNecCommand, Nec16Command, NecCommand, NecCommandVariant, NecDebugCmd, SamsungNecCommand};
use infrared::protocol::rc5::Rc5Command;
use infrared::protocol::rc6::Rc6Command;
use infrared::protocol::{AppleNec, Nec, Nec16, NecDebug, Rc5, Rc6, SamsungNec};
use infrared::receiver::DecoderBuilder;
use infrared::sender::ProtocolEncoder;

const S: usize = 96;

/// Encode, then play the frame twice into a receiver, 50 ms apart: every frame is reported
/// exactly once, and nothing else.
#[inline(always)]
fn trip<P: ProtocolEncoder<F> + DecoderBuilder<u32>, const F: u32>(cmd: &P::Cmd, max: usize, same: impl Fn(&P::Cmd) -> bool) {
    let mut buf = [0u32; S];
    for i in 0..S {
        buf[i] = 77; // stale contents of a buffer must not matter
    }
    let n = P::encode(cmd, &mut buf);
    check(n <= max, 1);
    assume(n <= max);
    let mut r: Rx<P> = Rx::new(F);
    let mut found = 0;
    let mut edge = false;
    for round in 0..2 {
        for i in 0..max {
            if i < n {
                edge = !edge;
                let dt = if i == 0 { F / 20 } else { buf[i] };
                match r.event(dt, i % 2 == 0) {
                    Ok(Some(c)) => {
                        check(same(&c), 2);
                        found += 1;
                    }
                    Ok(None) => {}
                    Err(_) => check(false, 3),
                }
            }
        }
        check(found == round + 1, 4);
        if edge {
            // the receiver sees the end of a mark that is still on
            let _ = r.event(1, false);
            edge = false;
        }
    }
    observe(found, 1);
    cover(true, 1);
}

#[inline(always)]
fn necs<C: NecCommandVariant, const F: u32>(cmd: C, same: impl Fn(&C) -> bool)
where
    Nec<C>: DecoderBuilder<u32> + ProtocolEncoder<F, Cmd = C>,
{
    trip::<Nec<C>, F>(&cmd, 70, same);
}

#[inline(always)]
fn nec<const F: u32>() {
    let (addr, cmd) = (any_u8(1), any_u8(2));
    necs::<NecCommand, F>(NecCommand { addr, cmd, repeat: false }, |c| c.addr == addr && c.cmd == cmd && !c.repeat);
}
#[inline(always)]
fn nec16<const F: u32>() {
    let (addr, cmd) = (any_u16(1), any_u8(2));
    necs::<Nec16Command, F>(Nec16Command { addr, cmd, repeat: false }, |c| c.addr == addr && c.cmd == cmd && !c.repeat);
}
#[inline(always)]
fn samsung<const F: u32>() {
    let (addr, cmd) = (any_u8(1), any_u8(2));
    necs::<SamsungNecCommand, F>(SamsungNecCommand { addr, cmd, repeat: false }, |c| c.addr == addr && c.cmd == cmd && !c.repeat);
}
#[inline(always)]
fn raw<const F: u32>() {
    let bits = any_u32(1);
    necs::<NecDebugCmd, F>(NecDebugCmd { bits }, |c| c.bits == bits);
}
#[inline(always)]
fn apple<const F: u32>() {
    let (page, command, device_id) = (any_u8(1) & 0x1F, any_u8(2) & 0x7F, any_u8(3));
    necs::<AppleNecCommand, F>(AppleNecCommand { command_page: page, command, device_id, repeat: false }, |c| {
        c.command_page == page && c.command == command && c.device_id == device_id && !c.repeat
    });
}
#[inline(always)]
fn rc5<const F: u32>() {
    let (addr, cmd, toggle) = (any_u8(1) & 31, any_u8(2) & 63, any_bool(3));
    trip::<Rc5, F>(&Rc5Command::new(addr, cmd, toggle), 29, |c| c.addr == addr && c.cmd == cmd && c.toggle == toggle && c.start == 3);
}
#[inline(always)]
fn rc6<const F: u32>(addr: u8, cmd: u8, toggle: bool) {
    let mut k = Rc6Command::new(addr, cmd);
    k.toggle = toggle;
    trip::<Rc6, F>(&k, 44, |c| c.addr == addr && c.cmd == cmd && c.toggle == toggle);
}

harnesses! {
    fn h_c18_nec20k() { nec::<20_000>() }
    fn h_c18_nec40k() { nec::<40_000>() }
    fn h_c18_nec1m() { nec::<1_000_000>() }
    fn h_c18_nec48m() { nec::<48_000_000>() }
    fn h_c18_nec16() { nec16::<40_000>() }
    fn h_c18_samsung20k() { samsung::<20_000>() }
    fn h_c18_samsung1m() { samsung::<1_000_000>() }
    fn h_c18_raw() { raw::<38_000>() }
    fn h_c18_apple() { apple::<40_000>() }
    fn h_c18_rc5_20k() { rc5::<20_000>() }
    fn h_c18_rc5_40k() { rc5::<40_000>() }
    fn h_c18_rc5_1m() { rc5::<1_000_000>() }
    fn h_c18_rc5_48m() { rc5::<48_000_000>() }
    fn h_c18_rc6_a0() { rc6::<40_000>(any_u8(1), 0x5A, false) }
    fn h_c18_rc6_a1() { rc6::<1_000_000>(any_u8(1), 0xFF, true) }
    fn h_c18_rc6_c0() { rc6::<1_000_000>(0x00, any_u8(1), false) }
    fn h_c18_rc6_c1() { rc6::<40_000>(0xC6, any_u8(1), true) }
    #[cfg(feature = "thorough")]
    fn h_c18_rc6_a2() { rc6::<40_000>(any_u8(1), 0x00, true) }
    #[cfg(feature = "thorough")]
    fn h_c18_rc6_a3() { rc6::<40_000>(any_u8(1), 0x80, false) }
    #[cfg(feature = "thorough")]
    fn h_c18_rc6_a4() { rc6::<100_000>(any_u8(1), 0x35, false) }
    #[cfg(feature = "thorough")]
    fn h_c18_rc6_c2() { rc6::<40_000>(0xFF, any_u8(1), true) }
    #[cfg(feature = "thorough")]
    fn h_c18_rc6_c3() { rc6::<100_000>(0x01, any_u8(1), false) }
}
