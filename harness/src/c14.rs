//! C14: receivers with a pin: polarity, pin errors, error kinds, access to the pin.
use crate::rt::*;
use crate::stub::*;
use embedded_hal::digital::v2::InputPin;
use fugit::TimerInstantU32;
use infrared::receiver::{DecodingError, Error};
use infrared::{PeriodicPoll, Receiver};
use std::cell::Cell;

const N: u32 = if THOROUGH { 10 } else { 5 };

/// An input pin with a given level, or a given error.
#[derive(Clone, Copy, PartialEq)]
pub struct TestPin {
    pub low: bool,
    pub err: Option<u8>,
    pub id: u32,
}
impl InputPin for TestPin {
    type Error = u8;
    fn is_high(&self) -> Result<bool, u8> {
        match self.err {
            Some(e) => Err(e),
            None => Ok(!self.low),
        }
    }
    fn is_low(&self) -> Result<bool, u8> {
        match self.err {
            Some(e) => Err(e),
            None => Ok(self.low),
        }
    }
}
fn pin(id: u32) -> TestPin {
    TestPin { low: false, err: None, id }
}
/// A pin whose state is set from outside.
pub struct Wire<'a>(pub &'a Cell<TestPin>);
impl InputPin for Wire<'_> {
    type Error = u8;
    fn is_high(&self) -> Result<bool, u8> {
        self.0.get().is_high()
    }
    fn is_low(&self) -> Result<bool, u8> {
        self.0.get().is_low()
    }
}

#[inline(always)]
fn draw(i: u32) -> TestPin {
    let (low, fail, e) = (any_bool(200 + i), any_bool(300 + i), any_u8(400 + i));
    TestPin { low, err: if fail { Some(e) } else { None }, id: 7 }
}

/// The error of a pin receiver is the decoder's, kind by kind.
#[inline(always)]
fn kind(e: &Error<u8>) -> Option<DecodingError> {
    match e {
        Error::Address => Some(DecodingError::Address),
        Error::Data => Some(DecodingError::Data),
        Error::Validation => Some(DecodingError::Validation),
        Error::RemoteControlError => Some(DecodingError::RemoteControlError),
        Error::Hal(_) => None,
    }
}
#[inline(always)]
fn same(x: &Result<Option<StubCmd>, Error<u8>>, m: &(Option<u64>, Option<DecodingError>)) -> bool {
    match x {
        Ok(c) => agrees(&Ok(*c), m),
        Err(e) => match kind(e) {
            Some(k) => agrees(&Err(k), m),
            None => false,
        },
    }
}
#[inline(always)]
fn hal(x: &Result<Option<StubCmd>, Error<u8>>, e: u8) -> bool {
    matches!(x, Err(Error::Hal(f)) if *f == e)
}

#[inline(always)]
fn event() {
    let mut r: Receiver<Stub, TestPin> = Receiver::with_pin(40_000, pin(7));
    let mut m = Model::new(0);
    let mut errs = 0;
    for i in 0..N {
        let p = draw(i);
        *r.pin_mut() = p;
        let dt = any_u32(1 + i);
        let x = r.event(dt);
        match p.err {
            Some(e) => {
                check(hal(&x, e), 1);
                errs += 1;
            }
            None => check(same(&x, &m.event(p.low, dt as u64)), 2),
        }
        check(*r.pin() == p, 3);
    }
    cover(errs == 2, 1);
    observe(m.digest, 1);
    let p = *r.pin();
    check(r.release() == p && p.id == 7, 4);
}

#[inline(always)]
fn instant() {
    let mut r: Receiver<Stub, TestPin> = Receiver::with_pin(40_000, pin(7));
    let mut m = Model::new(0);
    let mut prev = 0u32;
    let mut errs = 0;
    for i in 0..N {
        let p = draw(i);
        *r.pin_mut() = p;
        let t = any_u32(1 + i);
        let x = r.event_instant(t);
        match p.err {
            Some(e) => {
                check(hal(&x, e), 11);
                errs += 1;
            }
            None => {
                let dt = if t >= prev { t - prev } else { 0 };
                check(same(&x, &m.event(p.low, dt as u64)), 12);
                prev = t;
            }
        }
    }
    cover(errs == 2, 1);
    observe(m.digest, 1);
}

#[inline(always)]
fn fugit() {
    type I = TimerInstantU32<1_000_000>;
    let c = Cell::new(pin(7));
    let mut r: Receiver<Stub, Wire, I> = Receiver::with_fugit(Wire(&c));
    let mut m = Model::new(0);
    let mut prev = 0u32;
    let mut errs = 0;
    for i in 0..N {
        let p = draw(i);
        c.set(p);
        let t = any_u32(1 + i);
        let d = t.wrapping_sub(prev);
        assume(d != 0x8000_0000);
        let x = r.event_instant(I::from_ticks(t));
        match p.err {
            Some(e) => {
                check(hal(&x, e), 21);
                errs += 1;
            }
            None => {
                let dt = if d < 0x8000_0000 { d } else { 0 };
                check(same(&x, &m.event(p.low, dt as u64)), 22);
                prev = t;
            }
        }
    }
    cover(errs == 2, 1);
    observe(m.digest, 1);
}

/// Polled: whether a poll whose pin read failed counts as elapsed time is not specified;
/// nothing else may depend on it.
#[inline(always)]
fn polled() {
    let c = Cell::new(pin(7));
    let mut r: PeriodicPoll<Stub, Wire> = PeriodicPoll::with_pin(40_000, Wire(&c));
    let mut a = Model::new(0);
    let mut b = Model::new(0);
    let mut level = false;
    let (mut ra, mut rb) = (0u64, 0u64);
    let (mut oka, mut okb) = (true, true);
    let mut errs = 0;
    for i in 0..2 * N {
        let p = draw(i);
        c.set(p);
        let x = r.poll();
        ra += 1;
        match p.err {
            Some(e) => {
                check(hal(&x, e), 31);
                errs += 1;
            }
            None => {
                rb += 1;
                if p.low != level {
                    oka &= same(&x, &a.event(p.low, ra));
                    okb &= same(&x, &b.event(p.low, rb));
                    level = p.low;
                    ra = 0;
                    rb = 0;
                } else {
                    check(matches!(x, Ok(None)), 32);
                }
            }
        }
    }
    check(oka | okb, 33);
    cover(errs == 2, 1);
}

/// Error conversion, kind by kind.
#[inline(always)]
fn conv() {
    let k: u8 = any_u8(1) & 3;
    let d = match k {
        0 => DecodingError::Address,
        1 => DecodingError::Data,
        2 => DecodingError::Validation,
        _ => DecodingError::RemoteControlError,
    };
    let e: Error<u8> = d.into();
    check(kind(&e) == Some(d), 41);
    cover(k == 3, 1);
}

harnesses! {
    fn h_c14_event() { event() }
    fn h_c14_instant() { instant() }
    fn h_c14_fugit() { fugit() }
    fn h_c14_polled() { polled() }
    fn h_c14_conv() { conv() }
}
