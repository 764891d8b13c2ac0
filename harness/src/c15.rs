//! C15: every slot of a MultiReceiver behaves as the single receiver.
use crate::rt::*;
use crate::sig::*;
use crate::stub::*;
use embedded_hal::digital::v2::InputPin;
use infrared::cmd::AnyCommand;
use infrared::protocol::{Denon, Nec, Rc5, Rc6, SamsungNec, Sbp};
use infrared::receiver::{DecoderBuilder, DecodingError, MultiReceiver, NoPin};

const N: u32 = if THOROUGH { 6 } else { 3 };

type S0 = Stub<0>;
type S1 = Stub<1>;
type S2 = Stub<3>;
type S3 = Stub<6>;
type S4 = Stub<7>;
type S5 = Stub<0>;
const SEEDS: [u32; 6] = [0, 1, 3, 6, 7, 0];

#[inline(always)]
fn fits(x: &Option<AnyCommand>, m: &(Option<u64>, Option<DecodingError>)) -> bool {
    match (x, m.0) {
        (None, None) => true,
        (Some(c), Some(d)) => c.raw == d && c.address == 38_000 && c.command == 1,
        _ => false,
    }
}

macro_rules! slots {
    ($name:ident, $n:literal, $t:ty, $mono:ty) => {
        #[inline(always)]
        fn $name(iter: bool) {
            let mut r: MultiReceiver<$n, $t, NoPin, $mono> = MultiReceiver::new(38_000, NoPin);
            let mut m = [Model::new(0); $n];
            for k in 0..$n {
                m[k] = Model::new(SEEDS[k]);
            }
            let mut hits = 0;
            for i in 0..N {
                let dt = any_u32(1 + i);
                let edge = any_bool(100 + i);
                let mut e = [(None, None); $n];
                for k in 0..$n {
                    e[k] = m[k].event(edge, dt as u64);
                }
                if iter {
                    let mut it = r.event_generic_iter(dt.into(), edge);
                    for k in 0..$n {
                        if e[k].0.is_some() {
                            check(fits(&it.next(), &e[k]), 2);
                        }
                    }
                    check(it.next().is_none(), 3);
                } else {
                    let x = r.event_generic(dt.into(), edge);
                    for k in 0..$n {
                        check(fits(&x[k], &e[k]), 1);
                        hits += x[k].is_some() as u32;
                    }
                }
            }
            cover(true, 1);
            if !iter {
                cover(hits >= 2, 2);
            }
            observe(m[$n - 1].digest, 1);
        }
    };
}
slots!(two, 2, (S0, S1), u32);
slots!(three, 3, (S0, S1, S2), u32);
slots!(four, 4, (S0, S1, S2, S3), u32);
slots!(five, 5, (S0, S1, S2, S3, S4), u32);
slots!(six, 6, (S0, S1, S2, S3, S4, S5), u32);
slots!(two64, 2, (S0, S1), u64);
slots!(six64, 6, (S0, S1, S2, S3, S4, S5), u64);

/// With a pin: level and error are the pin's.
pub struct TestPin {
    low: bool,
    err: Option<u8>,
}
impl InputPin for TestPin {
    type Error = u8;
    fn is_high(&self) -> Result<bool, u8> {
        self.is_low().map(|x| !x)
    }
    fn is_low(&self) -> Result<bool, u8> {
        match self.err {
            Some(e) => Err(e),
            None => Ok(self.low),
        }
    }
}

#[inline(always)]
fn pin(iter: bool) {
    let mut r: MultiReceiver<3, (S0, S1, S2), TestPin> = MultiReceiver::new(38_000, TestPin { low: false, err: None });
    let mut m = [Model::new(SEEDS[0]), Model::new(SEEDS[1]), Model::new(SEEDS[2])];
    let mut errs = 0;
    for i in 0..N {
        let dt = any_u32(1 + i);
        let (low, fail, code) = (any_bool(100 + i), any_bool(200 + i), any_u8(300 + i));
        r.pin().low = low;
        r.pin().err = if fail { Some(code) } else { None };
        if fail {
            if iter {
                check(matches!(r.event_iter(dt), Err(e) if e == code), 11);
            } else {
                check(matches!(r.event(dt), Err(e) if e == code), 11);
            }
            errs += 1;
        } else {
            let e = [m[0].event(low, dt as u64), m[1].event(low, dt as u64), m[2].event(low, dt as u64)];
            if iter {
                match r.event_iter(dt) {
                    Ok(mut it) => {
                        for k in 0..3 {
                            if e[k].0.is_some() {
                                check(fits(&it.next(), &e[k]), 14);
                            }
                        }
                        check(it.next().is_none(), 15);
                    }
                    Err(_) => check(false, 12),
                }
            } else {
                match r.event(dt) {
                    Ok(x) => {
                        for k in 0..3 {
                            check(fits(&x[k], &e[k]), 13);
                        }
                    }
                    Err(_) => check(false, 12),
                }
            }
        }
    }
    cover(errs == 1, 1);
}

/// Real protocols side by side: slot for slot what the single receivers report.
#[inline(always)]
fn slot<P: DecoderBuilder<u32>>(r: &mut Rx<P>, dt: u32, edge: bool, got: &Option<AnyCommand>, n: &mut u32)
where
    P::Cmd: Into<AnyCommand>,
{
    let x: Option<AnyCommand> = match r.event(dt, edge) {
        Ok(Some(c)) => Some(c.into()),
        _ => None,
    };
    match (&x, got) {
        (None, None) => {}
        (Some(a), Some(b)) => {
            check(a.protocol == b.protocol && a.raw == b.raw, 21);
            check(a.address == b.address && a.command == b.command && a.repeat == b.repeat, 22);
            *n += 1;
        }
        _ => check(false, 23),
    }
}

#[inline(always)]
fn real(which: u32) {
    const F: u32 = 1_000_000;
    type All = (Nec, Rc5, Rc6, SamsungNec, Denon, Sbp);
    let mut r: MultiReceiver<6, All, NoPin> = MultiReceiver::new(F, NoPin);
    let mut a: Rx<Nec> = Rx::new(F);
    let mut b: Rx<Rc5> = Rx::new(F);
    let mut c: Rx<Rc6> = Rx::new(F);
    let mut d: Rx<SamsungNec> = Rx::new(F);
    let mut e: Rx<Denon> = Rx::new(F);
    let mut f: Rx<Sbp> = Rx::new(F);
    let mut n = 0;
    let mut ev = |dt: u32, edge: bool| {
        let g = r.event_generic(dt, edge);
        slot(&mut a, dt, edge, &g[0], &mut n);
        slot(&mut b, dt, edge, &g[1], &mut n);
        slot(&mut c, dt, edge, &g[2], &mut n);
        slot(&mut d, dt, edge, &g[3], &mut n);
        slot(&mut e, dt, edge, &g[4], &mut n);
        slot(&mut f, dt, edge, &g[5], &mut n);
    };
    ev(50_000, true);
    match which {
        0 => gen_nec(9000, any_u32(1), |_, us, k, _| ev(us, k)),
        1 => gen_nec(4500, any_u32(1), |_, us, k, _| ev(us, k)),
        2 => gen_rc5(any_u16(1), |_, us, k, _| ev(us, k)),
        3 => gen_rc6(any_bool(1), any_u16(2), |_, us, k, _| ev(us, k)),
        4 => gen_sbp(any_u16(1), any_u32(2), |_, us, k, _| ev(us, k)),
        _ => gen_denon(any_u64(1), |_, us, k, _| ev(us, k)),
    }
    check(n >= 1, 24);
    cover(true, 1);
}

harnesses! {
    fn h_c15_two() { two(false) }
    fn h_c15_three() { three(false) }
    fn h_c15_four() { four(false) }
    fn h_c15_five() { five(false) }
    fn h_c15_six() { six(false) }
    fn h_c15_two_it() { two(true) }
    fn h_c15_three_it() { three(true) }
    fn h_c15_four_it() { four(true) }
    fn h_c15_five_it() { five(true) }
    fn h_c15_six_it() { six(true) }
    fn h_c15_two64() { two64(false) }
    fn h_c15_six64() { six64(false) }
    fn h_c15_pin() { pin(false) }
    fn h_c15_pin_it() { pin(true) }
    fn h_c15_nec() { real(0) }
    fn h_c15_samsung() { real(1) }
    fn h_c15_rc5() { real(2) }
    fn h_c15_rc6() { real(3) }
    fn h_c15_sbp() { real(4) }
    fn h_c15_denon() { real(5) }
}
