//! C20: a loaded frame is played back exactly: every mark and space for its number of
//! ticks, then nothing.
use crate::age::age;
use crate::play::*;
use crate::rt::*;
use infrared::protocol::rc5::Rc5Command;
use infrared::protocol::Rc5;
use infrared::sender::{PulsedataSender, Sender, Status};
use std::cell::Cell;

const MAX: u32 = if THOROUGH { 5 } else { 3 };
const TAIL: u32 = 4;

/// One tick per time unit, starting at `start`.
#[inline(always)]
fn data<const S: usize>(n: usize, start: u32) {
    let t = Tune::any(1, n, MAX);
    let mut s: PulsedataSender<S> = PulsedataSender::new();
    check(s.buffer().is_empty(), 1);
    s.load_command::<Play, 1000>(&t);
    check(s.buffer().len() == n + 1 && s.buffer()[1] == t.d[0], 2);
    let total = t.total();
    for k in 0..n as u32 * MAX + TAIL {
        match tick(&mut s, start.wrapping_add(k)) {
            Status::Transmit(on) => {
                check(on == t.mark(k), 3);
                check(k <= total, 4);
            }
            Status::Idle => check(k >= total, 5),
            Status::Error => check(false, 6),
        }
    }
    cover(total == n as u32 * MAX, 1);
    observe(total as u64, 1);
}

/// Any tick times (32-bit, wrapping): every level lasts until the first tick at which its
/// duration has passed.
#[inline(always)]
fn late(n: usize) {
    let mut d = [0; K];
    for i in 0..n {
        d[i] = any_u32(1 + i as u32);
    }
    let t = Tune { d, n };
    let mut s: PulsedataSender<8> = PulsedataSender::new();
    s.load_command::<Play, 1000>(&t);
    let mut now = any_u32(50);
    let _ = tick(&mut s, now);
    let mut level = true;
    let mut i = 0;
    let mut last = now;
    for k in 0..n as u32 + 3 {
        now = any_u32(100 + k);
        let mut over = false;
        if i < n {
            if now.wrapping_sub(last) >= t.d[i] {
                i += 1;
                level = !level;
                last = now;
            }
        } else {
            over = true;
        }
        let x = tick(&mut s, now);
        if over {
            check(x == Status::Idle, 11);
        } else {
            check(x == Status::Transmit(level), 12);
        }
    }
    cover(i == n, 1);
    cover(i == 0, 2);
}

/// The embedded-hal sender: the output is on exactly during the marks.
#[inline(always)]
fn hal(n: usize, idle: bool) {
    let t = Tune::any(1, n, MAX);
    let led = Cell::new(any_bool(40));
    let mut s: Sender<Led, 1000, 8> = Sender::new(Led(&led));
    for _ in 0..2 {
        tick_hal(&mut s); // nothing loaded: off
        check(!led.get(), 21);
    }
    if idle {
        // ... for any length of time
        age(&mut s, any_u32(30), |s| tick_hal(s));
        for _ in 0..2 {
            tick_hal(&mut s);
            check(!led.get(), 24);
        }
    }
    s.load::<Play>(&t);
    check(s.buffer().len() == n + 1, 22);
    for k in 0..n as u32 * MAX + TAIL {
        tick_hal(&mut s);
        check(led.get() == t.mark(k), 23);
    }
    cover(true, 1);
}

/// A real encoder at one tick per half bit: the output is the bi-phase waveform.
#[inline(always)]
fn rc5() {
    let (addr, cmd, toggle) = (any_u8(1) & 31, any_u8(2) & 63, any_bool(3));
    let word = 3 << 12 | (toggle as u16) << 11 | (addr as u16) << 6 | cmd as u16;
    let led = Cell::new(false);
    let mut s: Sender<Led, 2000, 48> = Sender::new(Led(&led));
    s.load::<Rc5>(&Rc5Command::new(addr, cmd, toggle));
    // the first half of the first bit is a space that nobody can see
    for k in 1..40 {
        tick_hal(&mut s);
        let on = if k < 28 {
            let bit = word >> (13 - k / 2) & 1 == 1;
            bit == (k % 2 == 1)
        } else {
            false
        };
        check(led.get() == on, 31);
    }
    cover(word & 1 == 1, 1);
}

harnesses! {
    fn h_c20_data1() { data::<2>(1, 0) }
    fn h_c20_data3() { data::<4>(3, 0) }
    fn h_c20_data3w() { data::<8>(3, u32::MAX - 5) }
    fn h_c20_data5() { data::<12>(5, 1) }
    fn h_c20_late() { late(3) }
    fn h_c20_late1() { late(1) }
    fn h_c20_hal1() { hal(1, false) }
    fn h_c20_hal3() { hal(3, false) }
    fn h_c20_hal5() { hal(5, false) }
    fn h_c20_hal_idle() { hal(3, true) }
    fn h_c20_rc5() { rc5() }
}
