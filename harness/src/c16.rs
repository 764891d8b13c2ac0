//! C16: the clock type makes no difference.
use crate::rt::*;
use crate::sig::*;
use crate::stub::Ticks;
use fugit::{TimerInstantU32, TimerInstantU64};
use infrared::protocol::{AppleNec, Denon, Nec, Nec16, Rc5, Rc6, SamsungNec, Sbp};
use infrared::receiver::time::InfraMonotonic;
use infrared::receiver::{DecoderBuilder, DecodingError, NoPin, ProtocolDecoder};
use infrared::Receiver;

const N: u32 = if THOROUGH { 10 } else { 6 };

type F32 = TimerInstantU32<1_000_000>;
type F64 = TimerInstantU64<1_000_000>;

#[inline(always)]
fn class<P: DecoderBuilder<M>, M: InfraMonotonic>(freq: u32, dt: u32) -> Option<usize>
where
    M::Duration: Ticks,
{
    P::build(freq).spans().get::<usize>(M::Duration::of(dt as u64))
}

/// Every duration is taken for the same symbol, whatever the clock type.
#[inline(always)]
fn classes<P: DecoderBuilder<u32> + DecoderBuilder<u64> + DecoderBuilder<F32> + DecoderBuilder<F64>>() {
    let dt = any_u32(1);
    let k = class::<P, u32>(1_000_000, dt);
    check(class::<P, u64>(1_000_000, dt) == k, 1);
    check(class::<P, F32>(1_000_000, dt) == k, 2);
    check(class::<P, F64>(1_000_000, dt) == k, 3);
    for f in [20_000, 38_000, 40_000, 48_000_000] {
        check(class::<P, u64>(f, dt) == class::<P, u32>(f, dt), 4);
    }
    cover(k == Some(0), 1);
    cover(k.is_none(), 2);
}

#[inline(always)]
fn ev<P: DecoderBuilder<M>, M: InfraMonotonic>(r: &mut Receiver<P, NoPin, M>, dt: u32, edge: bool) -> Result<Option<P::Cmd>, DecodingError>
where
    M::Duration: Ticks,
{
    r.event(M::Duration::of(dt as u64), edge)
}

/// Any stream: receivers on all clocks answer alike.
#[inline(always)]
fn streams<P: DecoderBuilder<u32> + DecoderBuilder<u64> + DecoderBuilder<F32> + DecoderBuilder<F64>>() {
    let mut a: Receiver<P, NoPin, u32> = Receiver::new(1_000_000);
    let mut b: Receiver<P, NoPin, u64> = Receiver::new(1_000_000);
    let mut c: Receiver<P, NoPin, F32> = Receiver::new(1_000_000);
    let mut d: Receiver<P, NoPin, F64> = Receiver::new(1_000_000);
    for i in 0..N {
        let dt = any_u32(1 + i);
        let edge = i % 2 == 0;
        let k = kind(ev(&mut a, dt, edge));
        check(kind(ev(&mut b, dt, edge)) == k, 11);
        check(kind(ev(&mut c, dt, edge)) == k, 12);
        check(kind(ev(&mut d, dt, edge)) == k, 13);
    }
    cover(true, 1);
}
#[inline(always)]
fn kind<C>(x: Result<Option<C>, DecodingError>) -> u8 {
    match x {
        Ok(None) => 0,
        Ok(Some(_)) => 1,
        Err(DecodingError::Address) => 2,
        Err(DecodingError::Data) => 3,
        Err(DecodingError::Validation) => 4,
        Err(DecodingError::RemoteControlError) => 5,
    }
}

// Frames with 5 % jitter on every clock type.
#[inline(always)]
fn start<P: DecoderBuilder<M>, M: InfraMonotonic>(freq: u32) -> Receiver<P, NoPin, M>
where
    M::Duration: Ticks,
{
    let mut r = Receiver::new(freq);
    let _ = ev(&mut r, any_in(999, freq / 50, u32::MAX), true);
    r
}
#[inline(always)]
fn step<C>(x: Result<Option<C>, DecodingError>, last: bool, out: &mut Option<C>) {
    if last {
        check(x.is_ok(), 21);
        *out = x.ok().flatten();
        check(out.is_some(), 23);
    } else {
        quiet(x, 22);
    }
}
#[inline(always)]
fn nec<M: InfraMonotonic>(freq: u32)
where
    M::Duration: Ticks,
{
    let (addr, cmd) = (any_u8(1), any_u8(2));
    let w = u32::from_le_bytes([addr, !addr, cmd, !cmd]);
    let mut r = start::<Nec, M>(freq);
    let mut out = None;
    gen_nec(9000, w, |t, us, e, last| step(ev(&mut r, jit(100 + t, us, freq), e), last, &mut out));
    if let Some(c) = out {
        check(c.addr == addr && c.cmd == cmd && !c.repeat, 24);
        cover(w & 0xFF == 0x5A, 1);
    }
}
#[inline(always)]
fn rc5<M: InfraMonotonic>(freq: u32)
where
    M::Duration: Ticks,
{
    let word = any_u16(1) & 0x1FFF;
    let mut r = start::<Rc5, M>(freq);
    let mut out = None;
    gen_rc5(word, |t, us, e, last| step(ev(&mut r, jit(100 + t, us, freq), e), last, &mut out));
    if let Some(c) = out {
        check(c.addr as u16 == word >> 6 & 0x1F && c.cmd as u16 == word & 0x3F, 24);
        check(c.toggle == (word >> 11 & 1 == 1), 25);
        cover(word == 0x1ABC, 1);
    }
}
#[inline(always)]
fn rc6<M: InfraMonotonic>(freq: u32)
where
    M::Duration: Ticks,
{
    let word = any_u16(1);
    let toggle = any_bool(2);
    let mut r = start::<Rc6, M>(freq);
    let mut out = None;
    gen_rc6(toggle, word, |t, us, e, last| step(ev(&mut r, jit(100 + t, us, freq), e), last, &mut out));
    if let Some(c) = out {
        check(c.addr as u16 == word >> 8 && c.cmd as u16 == word & 0xFF && c.toggle == toggle, 24);
        cover(word == 0x1ABC, 1);
    }
}
#[inline(always)]
fn sbp<M: InfraMonotonic>(freq: u32)
where
    M::Duration: Ticks,
{
    let (a, b) = (any_u16(1), any_u32(2) & 0xF_FFFF);
    let mut r = start::<Sbp, M>(freq);
    let mut out = None;
    gen_sbp(a, b, |t, us, e, last| step(ev(&mut r, jit(100 + t, us, freq), e), last, &mut out));
    if let Some(c) = out {
        check(c.address == a && c.command as u32 == b >> 4 & 0xFF, 24);
        cover(a == 0x1234, 1);
    }
}
#[inline(always)]
fn denon<M: InfraMonotonic>(freq: u32)
where
    M::Duration: Ticks,
{
    let bits = any_u64(1) & 0xFFFF_FFFF_FFFF;
    let mut r = start::<Denon, M>(freq);
    let mut out = None;
    gen_denon(bits, |t, us, e, last| step(ev(&mut r, jit(100 + t, us, freq), e), last, &mut out));
    if let Some(c) = out {
        check(c.bits == bits, 24);
        cover(bits == 0x1234_5678_9ABC, 1);
    }
}

harnesses! {
    fn h_c16_cl_nec() { classes::<Nec>() }
    fn h_c16_cl_nec16() { classes::<Nec16>() }
    fn h_c16_cl_samsung() { classes::<SamsungNec>() }
    fn h_c16_cl_apple() { classes::<AppleNec>() }
    fn h_c16_cl_rc5() { classes::<Rc5>() }
    fn h_c16_cl_rc6() { classes::<Rc6>() }
    fn h_c16_cl_sbp() { classes::<Sbp>() }
    fn h_c16_cl_denon() { classes::<Denon>() }
    fn h_c16_st_nec() { streams::<Nec>() }
    fn h_c16_st_rc5() { streams::<Rc5>() }
    fn h_c16_st_rc6() { streams::<Rc6>() }
    fn h_c16_st_sbp() { streams::<Sbp>() }
    fn h_c16_st_denon() { streams::<Denon>() }
    fn h_c16_nec_u64() { nec::<u64>(40_000) }
    fn h_c16_nec_f32() { nec::<TimerInstantU32<40_000>>(40_000) }
    fn h_c16_nec_f64() { nec::<TimerInstantU64<100_000>>(100_000) }
    fn h_c16_rc5_u64() { rc5::<u64>(40_000) }
    fn h_c16_rc5_f32() { rc5::<TimerInstantU32<40_000>>(40_000) }
    fn h_c16_rc5_f64() { rc5::<TimerInstantU64<100_000>>(100_000) }
    fn h_c16_rc6_u64() { rc6::<u64>(40_000) }
    fn h_c16_rc6_f32() { rc6::<TimerInstantU32<40_000>>(40_000) }
    fn h_c16_rc6_f64() { rc6::<TimerInstantU64<100_000>>(100_000) }
    fn h_c16_sbp_u64() { sbp::<u64>(1_000_000) }
    fn h_c16_sbp_f32() { sbp::<TimerInstantU32<1_000_000>>(1_000_000) }
    fn h_c16_sbp_f64() { sbp::<TimerInstantU64<100_000>>(100_000) }
    fn h_c16_denon_u64() { denon::<u64>(40_000) }
    fn h_c16_denon_f32() { denon::<TimerInstantU32<1_000_000>>(1_000_000) }
    fn h_c16_denon_f64() { denon::<TimerInstantU64<100_000>>(100_000) }
}
