//! C21: loading: ignored while a frame is being sent, exact afterwards.
use crate::play::*;
use crate::rt::*;
use infrared::sender::{PulsedataSender, Sender, Status};
use std::cell::Cell;

const MAX: u32 = if THOROUGH { 4 } else { 3 };
const N: usize = 3;

/// A second load at any tick: ignored during the frame, played from its start afterwards.
#[inline(always)]
fn busy() {
    let a = Tune::any(1, N, MAX);
    let b = Tune::any(20, 1, MAX);
    let led = Cell::new(false);
    let mut s: Sender<Led, 1000, 8> = Sender::new(Led(&led));
    s.load::<Play>(&a);
    let total = a.total();
    let when = any_in(50, 1, N as u32 * MAX + 3); // ticks before the second load
    let idle = when > total + 1; // the tick after the last change finds the frame over
    assume(when <= total || idle); // between end of frame and idle: not specified
    for k in 0..N as u32 * MAX + 4 + MAX + 2 {
        if k == when {
            s.load::<Play>(&b);
        }
        tick_hal(&mut s);
        let on = if k >= when && idle { b.mark(k - when) } else { a.mark(k) };
        check(led.get() == on, 1);
    }
    cover(idle, 1);
    cover(!idle && when == total, 2);
}

/// load_command on the plain sender starts over at once, whatever was loaded and however
/// much of it was sent.
#[inline(always)]
fn over() {
    let a = Tune::any(1, N, MAX);
    let b = Tune::any(20, 1, MAX);
    let mut s: PulsedataSender<8> = PulsedataSender::new();
    s.load_command::<Play, 1000>(&a);
    let when = any_in(50, 0, N as u32 * MAX + 3);
    for k in 0..N as u32 * MAX + 3 {
        if k < when {
            tick(&mut s, k);
        }
    }
    s.load_command::<Play, 1000>(&b);
    check(s.buffer().len() == 2, 11);
    let start = 100u32;
    let total = b.total();
    for k in 0..MAX + 4 {
        match tick(&mut s, start.wrapping_add(k)) {
            Status::Transmit(on) => {
                check(on == b.mark(k), 12);
                check(k <= total, 13);
            }
            Status::Idle => check(k >= total, 14),
            Status::Error => check(false, 15),
        }
    }
    cover(when == 2, 1);
}

/// reset empties the sender.
#[inline(always)]
fn reset() {
    let a = Tune::any(1, 3, MAX);
    let mut s: PulsedataSender<8> = PulsedataSender::new();
    s.load_command::<Play, 1000>(&a);
    let when = any_in(50, 0, 6);
    for k in 0..6 {
        if k < when {
            tick(&mut s, k);
        }
    }
    s.reset();
    check(s.buffer().is_empty(), 21);
    for k in 0..4 {
        check(s.tick(any_u32(60 + k)) == Status::Idle, 22);
    }
    cover(when == 3, 1);
}

harnesses! {
    fn h_c21_busy() { busy() }
    fn h_c21_over() { over() }
    fn h_c21_reset() { reset() }
}
