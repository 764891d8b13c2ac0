//! C12: periodic polling reports what the run lengths of the samples spell.
use crate::age::age;
use crate::rt::*;
use crate::sig::*;
use crate::stub::*;
use infrared::protocol::nec::NecCommand;
use infrared::protocol::{Denon, Nec, Rc5, Rc6, Sbp};
use infrared::receiver::{DecoderBuilder, DecodingError, ProtocolDecoder};
use embedded_hal::digital::v2::InputPin;
use infrared::PeriodicPoll;
use std::cell::Cell;

const N: u32 = if THOROUGH { 12 } else { 9 };
const NP: u32 = if THOROUGH { 64 } else { 32 };

/// The polled receiver next to the model fed with run lengths.
struct Pair {
    p: PeriodicPoll<Stub>,
    m: Model,
    level: bool,
    run: u32,
}
impl Pair {
    #[inline(always)]
    fn new(freq: u32) -> Self {
        Pair { p: PeriodicPoll::new(freq), m: Model::new(0), level: false, run: 0 }
    }
    #[inline(always)]
    fn poll(&mut self, level: bool, id: u32) {
        let x = self.p.poll(level);
        self.run = self.run + 1;
        if level != self.level {
            let e = self.m.event(level, self.run as u64);
            self.level = level;
            self.run = 0;
            check(agrees(&x, &e), id);
        } else {
            check(matches!(x, Ok(None)), id + 1);
        }
    }
}

/// Every sequence of samples.
#[inline(always)]
fn any_samples() {
    let mut s = Pair::new(20_000);
    for i in 0..N {
        s.poll(any_bool(1 + i), 1);
    }
    cover(s.run == 3, 1);
    observe(s.m.digest, 1);
}

/// The polled receiver with a decoder that reports every event it is fed.
struct Probed {
    p: PeriodicPoll<Probe>,
    level: bool,
    run: u32,
}
impl Probed {
    #[inline(always)]
    fn new(freq: u32) -> Self {
        Probed { p: PeriodicPoll::new(freq), level: false, run: 0 }
    }
    #[inline(always)]
    fn poll(&mut self, level: bool, id: u32) {
        let x = self.p.poll(level);
        self.run = self.run + 1;
        if level != self.level {
            let want = (self.run as u64) << 1 | level as u64;
            check(matches!(x, Ok(Some(c)) if c.digest == want), id);
            self.level = level;
            self.run = 0;
        } else {
            check(matches!(x, Ok(None)), id + 1);
        }
    }
}

/// Every sequence of samples: each change is one event with the run length before it.
#[inline(always)]
fn any_runs() {
    let mut s = Probed::new(20_000);
    for i in 0..NP {
        s.poll(any_bool(1 + i), 11);
    }
    cover(s.run == 3, 1);
    observe(s.run as u64, 1);
}

/// Long runs: `len` equal samples before arbitrary ones.
#[inline(always)]
fn long_runs(lv: bool, len: u32) {
    let mut s = Probed::new(40_000);
    s.poll(lv, 1);
    for _ in 0..len {
        s.poll(lv, 3);
    }
    for i in 2..7 {
        s.poll(any_bool(1 + i), 5);
    }
    cover(s.run == 0, 1);
    observe(s.run as u64, 1);
}

/// After an uptime of any number of samples (up to the range of the sample counter, and on
/// beyond it): the runs are counted as ever.
#[inline(always)]
fn uptime(lv: bool) {
    let mut s = Probed::new(40_000);
    s.poll(lv, 1);
    let n = any_in(1, 0, u32::MAX - 8);
    let aged = age(&mut s.p, n, |p| check(matches!(p.poll(lv), Ok(None)), 7));
    s.run += 3;
    if aged {
        s.run += n;
    }
    cover(true, 1);
    for i in 0..NP / 4 {
        if s.run == u32::MAX {
            break; // a run longer than a duration can say
        }
        s.poll(any_bool(2 + i), 9);
    }
    observe(s.run as u64, 1);
}

/// The level of a pin is polled: low is a mark.
struct Level<'a>(&'a Cell<bool>);
impl InputPin for Level<'_> {
    type Error = ();
    fn is_high(&self) -> Result<bool, ()> {
        Ok(!self.0.get())
    }
    fn is_low(&self) -> Result<bool, ()> {
        Ok(self.0.get())
    }
}
#[inline(always)]
fn pin() {
    let low = Cell::new(false);
    let mut p: PeriodicPoll<Probe, Level> = PeriodicPoll::with_pin(40_000, Level(&low));
    let (mut level, mut run) = (false, 0);
    for i in 0..NP / 2 {
        low.set(any_bool(1 + i));
        let x = p.poll();
        run += 1;
        if low.get() != level {
            level = low.get();
            let want = (run as u64) << 1 | level as u64;
            check(matches!(x, Ok(Some(c)) if c.digest == want), 13);
            run = 0;
        } else {
            check(matches!(x, Ok(None)), 14);
        }
    }
    cover(run == 3, 1);
}

// What sampling makes of a nominal frame: every interval is its nominal length rounded
// down or up to a whole number of samples, depending on the phase.
#[inline(always)]
fn sampled(tag: u32, us: u32, freq: u32) -> u32 {
    let n = us as u64 * freq as u64;
    any_in(tag, (n / 1_000_000) as u32, ((n + 999_999) / 1_000_000) as u32)
}

/// Pulse-distance frames: the distance between rising edges is sampled like any interval.
struct Pairs {
    us: u32,
    mark: u32,
    freq: u32,
}
impl Pairs {
    #[inline(always)]
    fn next(&mut self, tag: u32, us: u32, rising: bool) -> u32 {
        if rising {
            let total = sampled(tag, self.us + us, self.freq);
            total - self.mark
        } else {
            self.us = us;
            self.mark = sampled(tag, us, self.freq);
            self.mark
        }
    }
}

#[inline(always)]
fn start<P: DecoderBuilder<u32>>(freq: u32) -> P::Decoder {
    let mut d = P::build(freq);
    let _ = d.event_total(true, any_in(999, freq / 50, u32::MAX));
    d
}

#[inline(always)]
fn step<C>(x: Result<Option<C>, DecodingError>, last: bool, out: &mut Option<C>) {
    if last {
        check(x.is_ok(), 21);
        *out = x.ok().flatten();
        check(out.is_some(), 23);
    } else {
        quiet(x, 22);
    }
}

#[inline(always)]
fn nec(freq: u32) {
    let (addr, cmd) = (any_u8(1), any_u8(2));
    let w = u32::from_le_bytes([addr, !addr, cmd, !cmd]);
    let mut d = start::<Nec>(freq);
    let mut q = Pairs { us: 0, mark: 0, freq };
    let mut out: Option<NecCommand> = None;
    gen_nec(9000, w, |t, us, e, last| step(d.event_total(e, q.next(100 + t, us, e)), last, &mut out));
    if let Some(c) = out {
        check(c.addr == addr && c.cmd == cmd && !c.repeat, 24);
        cover(w & 0xFF == 0x5A, 1);
    }
}
#[inline(always)]
fn rc5(freq: u32) {
    let word = any_u16(1) & 0x1FFF;
    let mut d = start::<Rc5>(freq);
    let mut out = None;
    gen_rc5(word, |t, us, e, last| step(d.event_total(e, sampled(100 + t, us, freq)), last, &mut out));
    if let Some(c) = out {
        check(c.addr as u16 == word >> 6 & 0x1F && c.cmd as u16 == word & 0x3F, 24);
        check(c.toggle == (word >> 11 & 1 == 1), 25);
        cover(word == 0x1ABC, 1);
    }
}
#[inline(always)]
fn rc6(freq: u32) {
    let word = any_u16(1);
    let toggle = any_bool(2);
    let mut d = start::<Rc6>(freq);
    let mut out = None;
    gen_rc6(toggle, word, |t, us, e, last| step(d.event_total(e, sampled(100 + t, us, freq)), last, &mut out));
    if let Some(c) = out {
        check(c.addr as u16 == word >> 8 && c.cmd as u16 == word & 0xFF && c.toggle == toggle, 24);
        cover(word == 0x1ABC, 1);
    }
}
#[inline(always)]
fn sbp(freq: u32) {
    let (a, b) = (any_u16(1), any_u32(2) & 0xF_FFFF);
    let mut d = start::<Sbp>(freq);
    let mut q = Pairs { us: 0, mark: 0, freq };
    let mut out = None;
    gen_sbp(a, b, |t, us, e, last| step(d.event_total(e, q.next(100 + t, us, e)), last, &mut out));
    if let Some(c) = out {
        check(c.address == a, 24);
        cover(a == 0x1234, 1);
    }
}
#[inline(always)]
fn denon(freq: u32) {
    let bits = any_u64(1) & 0xFFFF_FFFF_FFFF;
    let mut d = start::<Denon>(freq);
    let mut q = Pairs { us: 0, mark: 0, freq };
    let mut out = None;
    gen_denon(bits, |t, us, e, last| step(d.event_total(e, q.next(100 + t, us, e)), last, &mut out));
    if let Some(c) = out {
        check(c.bits == bits, 24);
        cover(bits == 0x1234_5678_9ABC, 1);
    }
}

harnesses! {
    fn h_c12_any() { any_samples() }
    fn h_c12_runs() { any_runs() }
    fn h_c12_long() { long_runs(false, if THOROUGH { 140_000 } else { 66_000 }) }
    fn h_c12_long2() { long_runs(true, if THOROUGH { 140_000 } else { 66_000 }) }
    fn h_c12_pin() { pin() }
    fn h_c12_uptime() { uptime(false) }
    fn h_c12_uptime1() { uptime(true) }
    fn h_c12_nec20k() { nec(20_000) }
    fn h_c12_nec40k() { nec(40_000) }
    fn h_c12_rc5_20k() { rc5(20_000) }
    fn h_c12_rc5_40k() { rc5(40_000) }
    fn h_c12_rc6_40k() { rc6(40_000) }
    fn h_c12_sbp20k() { sbp(20_000) }
    fn h_c12_sbp40k() { sbp(40_000) }
    fn h_c12_denon20k() { denon(20_000) }
    fn h_c12_denon40k() { denon(40_000) }
}
