//! C27: driving a decoder directly: a command is there exactly when the decoder says so,
//! and the one-call forms do nothing but event, command, reset.
use crate::rt::*;
use crate::sig::*;
use crate::stub::*;
use infrared::protocol::denon::DenonCommand;
use infrared::protocol::nec::{AppleNecCommand, NecCommand, NecDebugCmd};
use infrared::protocol::rc5::Rc5Command;
use infrared::protocol::rc6::Rc6Command;
use infrared::protocol::sbp::SbpCommand;
use infrared::protocol::{AppleNec, Denon, Nec, NecDebug, Rc5, Rc6, Sbp};
use infrared::receiver::{DecoderBuilder, DecodingError, ProtocolDecoder, State};

const N: u32 = if THOROUGH { 12 } else { 6 };

trait Same {
    fn same(&self, o: &Self) -> bool;
}
impl Same for NecCommand {
    #[inline(always)]
    fn same(&self, o: &Self) -> bool {
        self == o
    }
}
impl Same for AppleNecCommand {
    #[inline(always)]
    fn same(&self, o: &Self) -> bool {
        self == o
    }
}
impl Same for NecDebugCmd {
    #[inline(always)]
    fn same(&self, o: &Self) -> bool {
        self == o
    }
}
impl Same for Rc5Command {
    #[inline(always)]
    fn same(&self, o: &Self) -> bool {
        self == o
    }
}
impl Same for Rc6Command {
    #[inline(always)]
    fn same(&self, o: &Self) -> bool {
        self == o
    }
}
impl Same for SbpCommand {
    #[inline(always)]
    fn same(&self, o: &Self) -> bool {
        self.address == o.address && self.command == o.command && self.valid == o.valid
    }
}
impl Same for DenonCommand {
    #[inline(always)]
    fn same(&self, o: &Self) -> bool {
        self.bits == o.bits
    }
}

/// A decoder driven step by step, one driven by event_total and a receiver, in lockstep.
struct Trio<P: DecoderBuilder<u32>> {
    a: P::Decoder,
    b: P::Decoder,
    r: Rx<P>,
    /// every completed frame has a command
    total: bool,
}
impl<P: DecoderBuilder<u32>> Trio<P>
where
    P::Cmd: Same,
{
    #[inline(always)]
    fn new(freq: u32, total: bool) -> Self {
        let t: Self = Trio { a: P::build(freq), b: P::build(freq), r: Rx::new(freq), total };
        check(t.a.command().is_none(), 1);
        t
    }
    #[inline(always)]
    fn event(&mut self, rising: bool, dt: u32) -> State {
        let s = self.a.event(rising, dt);
        let c = self.a.command();
        let done = s == State::Done;
        check(c.is_none() || done, 2);
        check(c.is_some() || !done || !self.total, 3);
        let err = match s {
            State::Error(e) => Some(e),
            _ => None,
        };
        same(self.b.event_total(rising, dt), &c, err, 10);
        same(self.r.event(dt, rising), &c, err, 20);
        if done || err.is_some() {
            self.a.reset();
            check(self.a.command().is_none(), 4);
        }
        s
    }
}
#[inline(always)]
fn same<C: Same>(x: Result<Option<C>, DecodingError>, c: &Option<C>, e: Option<DecodingError>, id: u32) {
    match (x, c) {
        (Ok(Some(x)), Some(c)) => check(x.same(c), id),
        (Ok(None), None) => check(e.is_none(), id + 1),
        (Err(x), _) => check(Some(x) == e, id + 2),
        _ => check(false, id + 3),
    }
}

/// Any events at all; reset at any point.
#[inline(always)]
fn stream<P: DecoderBuilder<u32>>(freq: u32, total: bool)
where
    P::Cmd: Same,
{
    let mut t: Trio<P> = Trio::new(freq, total);
    for i in 0..N {
        let s = t.event(any_bool(1 + i), any_u32(100 + i));
        cover(s == State::Receiving, 1);
    }
    t.a.reset();
    check(t.a.command().is_none(), 5);
}

#[inline(always)]
fn step<P: DecoderBuilder<u32>>(t: &mut Trio<P>, us: u32, rising: bool, last: bool, freq: u32, tag: u32)
where
    P::Cmd: Same,
{
    let s = t.event(rising, jit(tag, us, freq));
    if last {
        check(s == State::Done, 6);
        cover(true, 1);
    } else {
        check(!matches!(s, State::Done | State::Error(_)), 7);
    }
}
/// The rising edge that starts a frame.
#[inline(always)]
fn start<P: DecoderBuilder<u32>>(freq: u32, total: bool) -> Trio<P>
where
    P::Cmd: Same,
{
    let mut t: Trio<P> = Trio::new(freq, total);
    t.event(true, any_in(1, freq / 50, u32::MAX));
    t
}
#[inline(always)]
fn nec<P: DecoderBuilder<u32>>(freq: u32, total: bool)
where
    P::Cmd: Same,
{
    let mut t = start::<P>(freq, total);
    gen_nec(9000, any_u32(2), |k, us, e, last| step(&mut t, us, e, last, freq, 100 + k));
}
#[inline(always)]
fn rc5(freq: u32) {
    let mut t = start::<Rc5>(freq, true);
    gen_rc5(any_u16(2) & 0x1FFF, |k, us, e, last| step(&mut t, us, e, last, freq, 100 + k));
}
#[inline(always)]
fn rc6(freq: u32) {
    let mut t = start::<Rc6>(freq, true);
    gen_rc6(any_bool(3), any_u16(2), |k, us, e, last| step(&mut t, us, e, last, freq, 100 + k));
}
#[inline(always)]
fn sbp(freq: u32) {
    let mut t = start::<Sbp>(freq, true);
    gen_sbp(any_u16(2), any_u32(3) & 0xF_FFFF, |k, us, e, last| step(&mut t, us, e, last, freq, 100 + k));
}
#[inline(always)]
fn denon(freq: u32) {
    let mut t = start::<Denon>(freq, true);
    gen_denon(any_u64(2) & 0xFFFF_FFFF_FFFF, |k, us, e, last| step(&mut t, us, e, last, freq, 100 + k));
}

/// The same with a decoder that makes every call visible.
#[inline(always)]
fn calls() {
    let mut b = <Stub as DecoderBuilder<u32>>::build(40_000);
    let mut r: Rx<Stub> = Rx::new(40_000);
    let mut m = Model::new(0);
    for i in 0..N {
        let (e, d) = (any_bool(1 + i), any_u32(100 + i));
        let want = m.event(e, d as u64);
        check(agrees(&b.event_total(e, d), &want), 30);
        check(agrees(&r.event(d, e), &want), 31);
        cover(want.0.is_some(), 1);
    }
    observe(m.digest, 1);
}

harnesses! {
    fn h_c27_calls() { calls() }
    fn h_c27_st_nec() { stream::<Nec>(40_000, true) }
    fn h_c27_st_apple() { stream::<AppleNec>(40_000, false) }
    fn h_c27_st_rc5() { stream::<Rc5>(40_000, true) }
    fn h_c27_st_rc6() { stream::<Rc6>(40_000, true) }
    fn h_c27_st_sbp() { stream::<Sbp>(40_000, true) }
    fn h_c27_st_denon() { stream::<Denon>(40_000, true) }
    fn h_c27_nec() { nec::<Nec>(1_000_000, true) }
    fn h_c27_raw() { nec::<NecDebug>(40_000, true) }
    fn h_c27_apple() { nec::<AppleNec>(40_000, false) }
    fn h_c27_rc5() { rc5(1_000_000) }
    fn h_c27_rc6() { rc6(40_000) }
    fn h_c27_sbp() { sbp(1_000_000) }
    fn h_c27_denon() { denon(1_000_000) }
}
