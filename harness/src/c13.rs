//! C13: event_instant is event with the differences of the time stamps.
use crate::rt::*;
use crate::stub::*;
use embedded_hal::digital::v2::InputPin;
use fugit::{TimerInstantU32, TimerInstantU64};
use infrared::receiver::time::InfraMonotonic;
use infrared::receiver::{DecodingError, Error, NoPin};
use infrared::Receiver;

const N: u32 = if THOROUGH { 10 } else { 5 };

/// `diff(t, prev)`: what the documentation of the clock makes of two stamps.
#[inline(always)]
fn run<M: InfraMonotonic>(mk: impl Fn(u64) -> M::Instant, draw: impl Fn(u32, u64) -> u64, diff: impl Fn(u64, u64) -> u64)
where
    M::Duration: Ticks,
{
    let mut r: Receiver<Stub, NoPin, M> = Receiver::new(1_000_000);
    let mut m = Model::new(0);
    let mut prev = 0;
    let mut back = false;
    for i in 0..N {
        let t = draw(1 + i, prev);
        let edge = any_bool(100 + i);
        let x = r.event_instant(mk(t), edge);
        let e = m.event(edge, diff(t, prev));
        check(agrees(&x, &e), 1);
        back |= diff(t, prev) == 0 && t != prev;
        prev = t;
    }
    cover(back, 1);
    cover(!back, 2);
    observe(m.digest, 1);
}

/// The same with a pin, low for a rising edge, that never fails.
#[inline(always)]
fn pin<M: InfraMonotonic>(mk: impl Fn(u64) -> M::Instant, draw: impl Fn(u32, u64) -> u64, diff: impl Fn(u64, u64) -> u64)
where
    M::Duration: Ticks,
{
    let mut r: Receiver<Stub, Level, M> = Receiver::with_pin(1_000_000, Level(false));
    let mut m = Model::new(0);
    let mut prev = 0;
    for i in 0..N {
        let t = draw(1 + i, prev);
        let edge = any_bool(100 + i);
        r.pin_mut().0 = edge;
        let x = match r.event_instant(mk(t)) {
            Ok(c) => Ok(c),
            Err(Error::Address) => Err(DecodingError::Address),
            Err(Error::Data) => Err(DecodingError::Data),
            Err(Error::Validation) => Err(DecodingError::Validation),
            Err(Error::RemoteControlError) => Err(DecodingError::RemoteControlError),
            Err(Error::Hal(_)) => {
                check(false, 2);
                Ok(None)
            }
        };
        let e = m.event(edge, diff(t, prev));
        check(agrees(&x, &e), 1);
        cover(e.1.is_some() && i + 1 < N, 1);
        prev = t;
    }
    cover(true, 2);
    observe(m.digest, 1);
}
pub struct Level(pub bool);
impl InputPin for Level {
    type Error = u8;
    fn is_high(&self) -> Result<bool, u8> {
        Ok(!self.0)
    }
    fn is_low(&self) -> Result<bool, u8> {
        Ok(self.0)
    }
}

fn sub(t: u64, p: u64) -> u64 {
    if t >= p {
        t - p
    } else {
        0
    }
}
/// A wrapping 32-bit timer: stamps less than half the range ahead lie in the future.
#[inline(always)]
fn wrap32(t: u64, p: u64) -> u64 {
    let d = (t as u32).wrapping_sub(p as u32);
    if d < 0x8000_0000 {
        d as u64
    } else {
        0
    }
}
#[inline(always)]
fn draw32(tag: u32, p: u64) -> u64 {
    let t = any_u32(tag);
    assume(t.wrapping_sub(p as u32) != 0x8000_0000);
    t as u64
}
#[inline(always)]
fn wrap64(t: u64, p: u64) -> u64 {
    let d = t.wrapping_sub(p);
    if d < 1 << 63 {
        d
    } else {
        0
    }
}
#[inline(always)]
fn draw64(tag: u32, p: u64) -> u64 {
    let t = any_u64(tag);
    assume(t.wrapping_sub(p) != 1 << 63);
    t
}

harnesses! {
    fn h_c13_pin_u32() { pin::<u32>(|t| t as u32, |g, _| any_u32(g) as u64, sub) }
    fn h_c13_pin_u64() { pin::<u64>(|t| t, |g, _| any_u64(g), sub) }
    fn h_c13_pin_f32() { pin::<TimerInstantU32<1_000_000>>(|t| TimerInstantU32::from_ticks(t as u32), draw32, wrap32) }
    fn h_c13_pin_f64() { pin::<TimerInstantU64<1_000_000>>(|t| TimerInstantU64::from_ticks(t), draw64, wrap64) }
    fn h_c13_u32() { run::<u32>(|t| t as u32, |g, _| any_u32(g) as u64, sub) }
    fn h_c13_u64() { run::<u64>(|t| t, |g, _| any_u64(g), sub) }
    fn h_c13_f32_1m() { run::<TimerInstantU32<1_000_000>>(|t| TimerInstantU32::from_ticks(t as u32), draw32, wrap32) }
    fn h_c13_f32_32k() { run::<TimerInstantU32<32_768>>(|t| TimerInstantU32::from_ticks(t as u32), draw32, wrap32) }
    fn h_c13_f64_1m() { run::<TimerInstantU64<1_000_000>>(|t| TimerInstantU64::from_ticks(t), draw64, wrap64) }
}
