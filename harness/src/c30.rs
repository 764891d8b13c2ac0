//! C30: reset, at any point, makes a decoder as good as new.
use crate::rt::*;
use crate::sig::*;
use crate::wire::*;
use infrared::protocol::{AppleNec, Denon, Nec, Nec16, NecDebug, Rc5, Rc6, SamsungNec, Sbp};
use infrared::receiver::{ProtocolDecoder, State};

const M: u32 = if THOROUGH { 8 } else { 4 };
const F: u32 = 40_000;

/// Part of a frame (broken off anywhere, or all of it), one event of any kind, a reset.
#[inline(always)]
fn used<P: Wire>(freq: u32, edges: u32) -> P::Decoder {
    let mut d: P::Decoder = P::build(freq);
    let cut = any_in(1, 0, edges);
    d.event(true, any_u32(2));
    let (w, _) = P::any(10);
    P::send(w, |t, us, e, _| {
        if t < cut {
            d.event(e, exact(us, freq));
        }
    });
    d.event(any_bool(3), any_u32(4));
    cover(cut == edges / 2, 1);
    d.reset();
    check(d.command().is_none(), 1);
    d
}

/// ... then any events, in lockstep with a new decoder.
#[inline(always)]
fn anything<P: Wire>(freq: u32, edges: u32)
where
    P::Cmd: Cmd,
{
    let mut d = used::<P>(freq, edges);
    let mut n: P::Decoder = P::build(freq);
    for i in 0..M {
        let (e, t) = (any_bool(100 + i), any_u32(200 + i));
        let (x, y) = (d.event(e, t), n.event(e, t));
        // (only the old one can know what to repeat)
        let again = match d.command() {
            Some(c) => c.again(),
            None => false,
        };
        check(x == y || again && y == State::Idle, 2);
        if x != y {
            // the old one has reported
            d.reset();
        }
        // a NEC word that is just a repeat: no variant without flags makes one
        if x == State::Done || matches!(x, State::Error(_)) {
            d.reset();
            n.reset();
        }
    }
    cover(true, 2);
}

/// ... then a whole frame: reported exactly.
#[inline(always)]
fn frame<P: Wire>(freq: u32, edges: u32)
where
    P::Cmd: Cmd,
{
    let mut d = used::<P>(freq, edges);
    d.event(true, any_in(5, freq / 50, u32::MAX));
    let (w, want) = P::any(20);
    P::send(w, |t, us, e, last| {
        let x = d.event(e, exact(us, freq));
        let c = d.command();
        if last {
            check(x == State::Done, 3);
            match c {
                Some(c) => check(c.bits() == want && !c.again(), 4),
                None => check(false, 5),
            }
        } else {
            check(matches!(x, State::Idle | State::Receiving), 6);
            check(c.is_none(), 7);
        }
    });
    cover(true, 2);
}

harnesses! {
    fn h_c30_any_nec() { anything::<Nec>(F, 66) }
    fn h_c30_any_samsung() { anything::<SamsungNec>(F, 66) }
    fn h_c30_any_rc5() { anything::<Rc5>(F, 26) }
    fn h_c30_any_rc6() { anything::<Rc6>(F, 44) }
    fn h_c30_any_sbp() { anything::<Sbp>(1_000_000, 76) }
    fn h_c30_any_denon() { anything::<Denon>(1_000_000, 98) }
    fn h_c30_frame_nec() { frame::<Nec>(F, 66) }
    fn h_c30_frame_nec16() { frame::<Nec16>(F, 66) }
    fn h_c30_frame_samsung() { frame::<SamsungNec>(F, 66) }
    fn h_c30_frame_apple() { frame::<AppleNec>(F, 66) }
    fn h_c30_frame_raw() { frame::<NecDebug>(F, 66) }
    fn h_c30_frame_rc5() { frame::<Rc5>(F, 26) }
    fn h_c30_frame_rc6() { frame::<Rc6>(F, 44) }
    fn h_c30_frame_sbp() { frame::<Sbp>(1_000_000, 76) }
    fn h_c30_frame_denon() { frame::<Denon>(1_000_000, 98) }
}
