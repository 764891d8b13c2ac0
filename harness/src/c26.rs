//! C26: the configured frequency (and pin, protocol, clock) is the one in effect.
use crate::rt::*;
use crate::stub::*;
use embedded_hal::digital::v2::InputPin;
use fugit::{TimerInstantU32, TimerInstantU64};
use infrared::receiver::{BufferInputReceiver, Builder, MultiReceiver, NoPin};
use infrared::{PeriodicPoll, Receiver};

/// Always low (signal present), recognisable.
#[derive(Clone, Copy, PartialEq)]
struct Tag(u32);
impl InputPin for Tag {
    type Error = u8;
    fn is_high(&self) -> Result<bool, u8> {
        Ok(false)
    }
    fn is_low(&self) -> Result<bool, u8> {
        Ok(true)
    }
}

#[inline(always)]
fn is<E>(x: Result<Option<StubCmd>, E>, freq: u32, id: u32) {
    match x {
        Ok(Some(c)) => check(c.freq == freq, id),
        _ => check(false, id + 100),
    }
}
#[inline(always)]
fn drive(r: &mut Receiver<Stub>, freq: u32, id: u32) {
    is(r.event(3, true), freq, id);
}
/// The stub answers a run of three samples with a command.
#[inline(always)]
fn drive_polled(r: &mut PeriodicPoll<Stub>, freq: u32, id: u32) {
    let _ = r.poll(false);
    let _ = r.poll(false);
    is(r.poll(true), freq, id);
}

#[inline(always)]
fn direct() {
    let f = any_u32(1);
    drive(&mut Receiver::new(f), f, 1);
    drive(&mut Receiver::with_input(f, NoPin), f, 2);
    let p = Tag(any_u32(2));
    let mut r: Receiver<Stub, Tag> = Receiver::with_pin(f, p);
    is(r.event(3), f, 3);
    check(r.release() == p, 4);
    let mut r: Receiver<Stub, Tag, TimerInstantU32<48_000>> = Receiver::with_fugit(p);
    is(r.event_instant(TimerInstantU32::from_ticks(3)), 48_000, 5);
    check(r.release() == p, 6);
    let mut r: Receiver<Stub, Tag, TimerInstantU64<38_000>> = Receiver::with_fugit64(p);
    is(r.event_instant(TimerInstantU64::from_ticks(3)), 38_000, 7);
    check(r.release() == p, 8);
    drive_polled(&mut PeriodicPoll::new(f), f, 9);
    drive_polled(&mut PeriodicPoll::with_input(f, NoPin), f, 10);
    let mut r: PeriodicPoll<Stub, Tag> = PeriodicPoll::with_pin(f, p);
    // always low: one rising edge at the first poll (run length 1: no command)
    check(matches!(r.poll(), Ok(None)), 11);
    cover(f == 77, 1);
}

#[inline(always)]
fn builder() {
    let f = any_u32(1);
    let p = Tag(any_u32(2));
    drive(&mut infrared::receiver().protocol::<Stub>().build(), 1_000_000, 21);
    drive(&mut Builder::default().protocol::<Stub>().build(), 1_000_000, 22);
    drive(&mut infrared::receiver().frequency(f).protocol::<Stub>().build(), f, 23);
    drive(&mut infrared::receiver().protocol::<Stub>().frequency(f).build(), f, 24);
    drive(&mut infrared::receiver().frequency(5).protocol::<Stub>().frequency(f).build(), f, 25);
    drive(&mut infrared::receiver().protocol::<Stub>().frequency(f).monotonic::<u64>().monotonic::<u32>().build(), f, 26);
    let mut r = infrared::receiver().protocol::<Stub>().frequency(f).pin(p).build();
    is(r.event(3), f, 27);
    check(r.release() == p, 28);
    let mut r = infrared::receiver().pin(p).frequency(f).protocol::<Stub>().build();
    is(r.event(3), f, 29);
    check(r.release() == p, 30);
    let mut r = infrared::receiver().pin(p).monotonic::<u64>().frequency(f).protocol::<Stub>().build();
    is(r.event(3), f, 31);
    check(r.release() == p, 32);
    drive_polled(&mut infrared::receiver().protocol::<Stub>().frequency(f).build_polled(), f, 33);
    drive_polled(&mut infrared::receiver().protocol::<Stub>().build_polled(), 1_000_000, 34);
    let mut r = infrared::receiver().frequency(f).monotonic::<TimerInstantU64<10_000>>().protocol::<Stub>().build();
    is(r.event(fugit::TimerDurationU64::from_ticks(3), true), f, 35);
    cover(f == 77, 1);
}

#[inline(always)]
fn others() {
    let f = any_u32(1);
    let g = any_u32(2);
    let mut b: BufferInputReceiver<Stub> = BufferInputReceiver::new();
    is(Ok::<_, ()>(b.iter(&[3]).next()), 1_000_000, 41);
    let mut b: BufferInputReceiver<Stub> = Default::default();
    is(Ok::<_, ()>(b.iter(&[3]).next()), 1_000_000, 42);
    let mut b: BufferInputReceiver<Stub> = BufferInputReceiver::with_frequenzy(f);
    is(Ok::<_, ()>(b.iter(&[3]).next()), f, 43);
    is(Ok::<_, ()>(b.iter_with::<Stub, u64, StubCmd>(g, &[3]).next()), g, 44);
    is(Ok::<_, ()>(b.iter(&[3]).next()), f, 45);
    macro_rules! multi {
        ($n:literal, $($t:ty),*) => {{
            let mut r: MultiReceiver<$n, ($($t,)*), NoPin> = MultiReceiver::new(f, NoPin);
            for c in r.event_generic(3, true) {
                match c {
                    Some(c) => check(c.address == f, 46),
                    None => check(false, 47),
                }
            }
        }};
    }
    multi!(2, Stub, Stub);
    multi!(3, Stub, Stub, Stub);
    multi!(4, Stub, Stub, Stub, Stub);
    multi!(5, Stub, Stub, Stub, Stub, Stub);
    multi!(6, Stub, Stub, Stub, Stub, Stub, Stub);
    let p = Tag(g);
    let mut r: MultiReceiver<2, (Stub, Stub), Tag> = MultiReceiver::new(f, p);
    match r.event(3) {
        Ok([Some(a), Some(b)]) => check(a.address == f && b.address == f, 48),
        _ => check(false, 49),
    }
    check(*r.pin() == p, 50);
    cover(f == 77, 1);
}

harnesses! {
    fn h_c26_direct() { direct() }
    fn h_c26_builder() { builder() }
    fn h_c26_others() { others() }
}
