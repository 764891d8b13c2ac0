//! A protocol whose encoder plays back given durations, and the waveform it must produce.
#![allow(dead_code)]
use crate::rt::*;
use infrared::sender::{ProtocolEncoder, PulsedataSender, Sender, Status};
use infrared::Protocol;
use std::cell::Cell;

pub const K: usize = 6;

/// `n` durations after the leading zero, as the encoders of the crate produce them.
#[derive(Clone, Copy)]
pub struct Tune {
    pub d: [u32; K],
    pub n: usize,
}
pub struct Play;
impl Protocol for Play {
    type Cmd = Tune;
}
impl<const F: u32> ProtocolEncoder<F> for Play {
    type EncoderData = ();
    const DATA: () = ();
    fn encode(cmd: &Tune, b: &mut [u32]) -> usize {
        b[0] = 0;
        for i in 0..cmd.n {
            b[1 + i] = cmd.d[i];
        }
        cmd.n + 1
    }
}

impl Tune {
    /// `n` durations of 1 to `max` ticks.
    #[inline(always)]
    pub fn any(tag: u32, n: usize, max: u32) -> Tune {
        let mut d = [0; K];
        for i in 0..n {
            d[i] = any_in(tag + i as u32, 1, max);
        }
        Tune { d, n }
    }
    pub fn total(&self) -> u32 {
        let mut s = 0;
        for i in 0..self.n {
            s += self.d[i];
        }
        s
    }
    /// Is there a mark at tick `k` of the transmission?
    #[inline(always)]
    pub fn mark(&self, k: u32) -> bool {
        let mut level = true;
        let mut end = 0;
        for i in 0..self.n {
            end += self.d[i];
            if end <= k {
                level = !level;
            }
        }
        level && k < end
    }
}

/// A PWM output that remembers whether it is on.
pub struct Led<'a>(pub &'a Cell<bool>);
impl embedded_hal::PwmPin for Led<'_> {
    type Duty = u8;
    fn disable(&mut self) {
        self.0.set(false)
    }
    fn enable(&mut self) {
        self.0.set(true)
    }
    fn get_duty(&self) -> u8 {
        1
    }
    fn get_max_duty(&self) -> u8 {
        1
    }
    fn set_duty(&mut self, _: u8) {}
}

// Kept out of line: LLVM would otherwise thread the sender's state through the loops of
// the harness.
#[inline(never)]
pub fn tick<const S: usize>(s: &mut PulsedataSender<S>, ts: u32) -> Status {
    s.tick(ts)
}
#[inline(never)]
pub fn tick_hal<const F: u32, const S: usize>(s: &mut Sender<Led, F, S>) {
    s.tick()
}
