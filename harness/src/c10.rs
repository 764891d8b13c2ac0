//! C10: a receiver that has reported something is as good as new.
use crate::rt::*;
use crate::sig::*;
use crate::wire::*;
use infrared::protocol::{AppleNec, Denon, Nec, Nec16, NecDebug, Rc5, Rc6, SamsungNec, Sbp};
use infrared::receiver::DecodingError;

const M: u32 = if THOROUGH { 8 } else { 4 };

/// Exact durations in the quick tier, 5 % jitter in the thorough one.
#[inline(always)]
fn dur(tag: u32, us: u32, freq: u32) -> u32 {
    if THOROUGH {
        jit(tag, us, freq)
    } else {
        exact(us, freq)
    }
}

/// One complete frame: reported once, exactly.
#[inline(always)]
fn frame<P: Wire>(r: &mut Rx<P>, freq: u32, tag: u32)
where
    P::Cmd: Cmd,
{
    let (w, want) = P::any(tag);
    let mut level = true;
    P::send(w, |t, us, e, last| {
        let x = r.event(dur(tag + 10 + t, us, freq), e);
        level = e;
        if last {
            match x {
                Ok(Some(c)) => check(c.bits() == want && !c.again(), tag + 1),
                _ => check(false, tag + 2),
            }
        } else {
            check(matches!(x, Ok(None)), tag + 3);
        }
    });
    if level {
        let x = r.event(jit(tag + 4, P::STOP, freq), false);
        check(matches!(x, Ok(None)), tag + 4);
    }
}
#[inline(always)]
fn gap0<P: Wire>(r: &mut Rx<P>, freq: u32, tag: u32) {
    let x = r.event(any_in(tag, freq / 50, u32::MAX), true);
    check(matches!(x, Ok(None)), 5);
}

/// Three different frames, one after the other.
#[inline(always)]
fn frames<P: Wire>(freq: u32)
where
    P::Cmd: Cmd,
{
    let mut r: Rx<P> = Rx::new(freq);
    for k in 0..3 {
        gap0(&mut r, freq, 1 + k);
        frame(&mut r, freq, 1000 * (k + 1));
    }
    cover(true, 1);
}

#[inline(always)]
fn kind<C>(x: &Result<Option<C>, DecodingError>) -> u8 {
    match x {
        Ok(None) => 0,
        Ok(Some(_)) => 1,
        Err(DecodingError::Address) => 2,
        Err(DecodingError::Data) => 3,
        Err(DecodingError::Validation) => 4,
        Err(DecodingError::RemoteControlError) => 5,
    }
}

/// Any events at all, for an old and a new receiver.
#[inline(always)]
fn lockstep<P: Wire>(r: &mut Rx<P>, freq: u32)
where
    P::Cmd: Cmd,
{
    let mut f: Rx<P> = Rx::new(freq);
    for i in 0..M {
        let (e, d) = (any_bool(20 + i), any_u32(40 + i));
        let x = r.event(d, e);
        let y = f.event(d, e);
        // (only the old one can know what to repeat)
        let again = matches!(&x, Ok(Some(c)) if c.again());
        check(kind(&x) == kind(&y) || again && kind(&y) == 0, 11);
    }
    cover(true, 1);
}

/// A frame, then anything.
#[inline(always)]
fn after<P: Wire>(freq: u32)
where
    P::Cmd: Cmd,
{
    let (w, _) = P::any(100);
    let mut r: Rx<P> = Rx::new(freq);
    gap0(&mut r, freq, 1);
    let mut found = false;
    P::send(w, |t, us, e, _| {
        let x = r.event(jit(200 + t, us, freq), e);
        found = matches!(x, Ok(Some(_)));
    });
    check(found, 12);
    lockstep(&mut r, freq);
}

/// A frame that breaks off with an error at its `k`th edge, then anything, or a frame.
#[inline(always)]
fn fails<P: Wire>(freq: u32, k: u32, then: bool)
where
    P::Cmd: Cmd,
{
    let (w, _) = P::any(100);
    let mut r: Rx<P> = Rx::new(freq);
    gap0(&mut r, freq, 1);
    let mut failed = false;
    let mut over = false;
    P::send(w, |t, us, e, _| {
        if !over {
            let d = if t == k { any_u32(3) } else { dur(200 + t, us, freq) };
            let x = r.event(d, e);
            over = t >= k;
            failed = x.is_err();
        }
    });
    // an error is reported, or the frame goes on (or, if the bad edge was a falling one, ...)
    assume(failed);
    if then {
        let x = r.event(jit(2, P::STOP, freq), false);
        check(matches!(x, Ok(None)), 13);
        gap0(&mut r, freq, 4);
        frame(&mut r, freq, 1000);
        cover(true, 1);
    } else {
        lockstep(&mut r, freq);
    }
}

/// A frame that is complete but not valid, so that nothing is reported for it, then a frame.
#[inline(always)]
fn void(freq: u32) {
    let w = any_u32(100);
    // (not the vendor code, or even parity)
    assume(w >> 5 & 0x7FF != 0x43F || w.count_ones() % 2 == 0);
    let mut r: Rx<AppleNec> = Rx::new(freq);
    gap0(&mut r, freq, 1);
    gen_nec(9000, w, |t, us, e, _| {
        let x = r.event(dur(200 + t, us, freq), e);
        check(matches!(x, Ok(None)), 14);
    });
    let x = r.event(jit(2, 560, freq), false);
    check(matches!(x, Ok(None)), 15);
    gap0(&mut r, freq, 4);
    frame(&mut r, freq, 1000);
    cover(true, 1);
}

const F: u32 = 40_000;

harnesses! {
    fn h_c10_frames_nec() { frames::<Nec>(F) }
    fn h_c10_frames_samsung() { frames::<SamsungNec>(F) }
    fn h_c10_frames_nec16() { frames::<Nec16>(F) }
    fn h_c10_frames_raw() { frames::<NecDebug>(F) }
    fn h_c10_frames_apple() { frames::<AppleNec>(F) }
    fn h_c10_frames_rc5() { frames::<Rc5>(F) }
    fn h_c10_frames_rc6() { frames::<Rc6>(F) }
    fn h_c10_frames_sbp() { frames::<Sbp>(1_000_000) }
    fn h_c10_frames_denon() { frames::<Denon>(1_000_000) }
    fn h_c10_after_nec() { after::<Nec>(F) }
    fn h_c10_after_samsung() { after::<SamsungNec>(F) }
    fn h_c10_after_rc5() { after::<Rc5>(F) }
    fn h_c10_after_rc6() { after::<Rc6>(F) }
    fn h_c10_after_sbp() { after::<Sbp>(1_000_000) }
    fn h_c10_after_denon() { after::<Denon>(1_000_000) }
    fn h_c10_broken_nec_3() { fails::<Nec>(F, 3, false) }
    fn h_c10_broken_nec_33() { fails::<Nec>(F, 33, true) }
    fn h_c10_broken_nec_65() { fails::<Nec>(F, 65, true) }
    fn h_c10_broken_samsung_13() { fails::<SamsungNec>(F, 13, true) }
    fn h_c10_broken_raw_63() { fails::<NecDebug>(F, 63, true) }
    fn h_c10_broken_sbp_5() { fails::<Sbp>(1_000_000, 5, false) }
    fn h_c10_broken_sbp_33() { fails::<Sbp>(1_000_000, 33, true) }
    fn h_c10_broken_sbp_41() { fails::<Sbp>(1_000_000, 41, true) }
    fn h_c10_void_apple() { void(F) }
    fn h_c10_broken_sbp_81() { fails::<Sbp>(1_000_000, 81, true) }
}
