//! C08: NEC repeat codes repeat the last completed command.
use crate::rt::*;
use crate::sig::*;
use infrared::cmd::Command;
use infrared::protocol::nec::*;

pub trait V: NecCommandVariant + Copy + PartialEq {
    const HEADER: u32;
    fn rep(&self) -> bool;
    fn same_but_repeat(&self, o: &Self) -> bool;
    fn sample(tag: u32) -> u32;
    fn ok(&self, bits: u32) -> bool;
}
impl V for NecCommand {
    const HEADER: u32 = 9000;
    fn rep(&self) -> bool {
        self.repeat
    }
    fn same_but_repeat(&self, o: &Self) -> bool {
        self.addr == o.addr && self.cmd == o.cmd
    }
    fn sample(tag: u32) -> u32 {
        let (a, c) = (any_u8(tag), any_u8(tag + 1));
        a as u32 | (!a as u32) << 8 | (c as u32) << 16 | (!c as u32) << 24
    }
    fn ok(&self, bits: u32) -> bool {
        self.addr as u32 == bits & 0xFF && self.cmd as u32 == bits >> 16 & 0xFF
    }
}
impl V for SamsungNecCommand {
    const HEADER: u32 = 4500;
    fn rep(&self) -> bool {
        self.repeat
    }
    fn same_but_repeat(&self, o: &Self) -> bool {
        self.addr == o.addr && self.cmd == o.cmd
    }
    fn sample(tag: u32) -> u32 {
        let (a, c) = (any_u8(tag), any_u8(tag + 1));
        a as u32 | (a as u32) << 8 | (c as u32) << 16 | (!c as u32) << 24
    }
    fn ok(&self, bits: u32) -> bool {
        self.addr as u32 == bits & 0xFF && self.cmd as u32 == bits >> 16 & 0xFF
    }
}
impl V for Nec16Command {
    const HEADER: u32 = 9000;
    fn rep(&self) -> bool {
        self.repeat
    }
    fn same_but_repeat(&self, o: &Self) -> bool {
        self.addr == o.addr && self.cmd == o.cmd
    }
    fn sample(tag: u32) -> u32 {
        let (a, c) = (any_u16(tag), any_u8(tag + 1));
        a as u32 | (c as u32) << 16 | (!c as u32) << 24
    }
    fn ok(&self, bits: u32) -> bool {
        self.addr as u32 == bits & 0xFFFF && self.cmd as u32 == bits >> 16 & 0xFF
    }
}
impl V for AppleNecCommand {
    const HEADER: u32 = 9000;
    fn rep(&self) -> bool {
        self.repeat
    }
    fn same_but_repeat(&self, o: &Self) -> bool {
        self.command_page == o.command_page && self.command == o.command && self.device_id == o.device_id
    }
    fn sample(tag: u32) -> u32 {
        let b = any_u32(tag) & !0xFFE0 | 0x43F << 5;
        assume(b.count_ones() % 2 == 1);
        b
    }
    fn ok(&self, bits: u32) -> bool {
        self.command_page as u32 == bits & 0x1F && self.command as u32 == bits >> 17 & 0x7F && self.device_id as u32 == bits >> 24
    }
}

/// A frame, then `REPS` repeat codes: each reports the same command, flagged.
#[inline(always)]
fn held<C: V>(freq: u32) {
    const REPS: u32 = if THOROUGH { 4 } else { 2 };
    let mut r: Rx<Nec<C>> = Rx::new(freq);
    noise(&mut r, 4, 1000);
    gap(&mut r, freq, 999);
    let bits = C::sample(1);
    let mut first = None;
    gen_nec(C::HEADER, bits, |tag, us, rising, last| {
        let x = r.event(jit(100 + tag, us, freq), rising);
        if last {
            first = x.ok().flatten();
        }
    });
    quiet(r.event(jit(200, 560, freq), false), 1);
    check(first.is_some(), 2);
    if let Some(f) = first {
        check(!f.rep(), 3);
        check(f.ok(bits), 4);
    }
    for k in 0..REPS {
        // silence, repeat mark, repeat space, stop mark
        quiet(r.event(any_in(300 + 10 * k, freq / 50, u32::MAX), true), 5);
        quiet(r.event(jit(301 + 10 * k, C::HEADER, freq), false), 6);
        let x = r.event(jit(302 + 10 * k, 2250, freq), true);
        quiet(r.event(jit(303 + 10 * k, 560, freq), false), 7);
        let c = x.ok().flatten();
        check(c.is_some(), 8);
        if let Some(c) = c {
            check(c.rep(), 9);
            check(c.ok(bits), 10);
            cover(k == REPS - 1, 1);
        }
    }
}

/// Arbitrary stream: a repeat always carries the most recently reported full command,
/// and there is none before the first.
const N: u32 = if THOROUGH { 80 } else { 42 };
#[inline(always)]
fn honest<C: V>(freq: u32) {
    let mut r: Rx<Nec<C>> = Rx::new(freq);
    let _ = r.event(any_u32(1), true);
    let mut last: Option<C> = None;
    for i in 0..N {
        let _ = r.event(any_u32(1000 + 2 * i), false);
        if let Ok(Some(c)) = r.event(any_u32(1001 + 2 * i), true) {
            if c.rep() {
                check(last.is_some(), 20);
                if let Some(l) = last {
                    check(c.same_but_repeat(&l), 21);
                    cover(true, 1);
                }
            } else {
                last = Some(c);
            }
        }
    }
}

/// A complete frame, then an arbitrary stream (aborted frames, further frames, repeats).
#[inline(always)]
fn after<C: V>(freq: u32) {
    const M: u32 = if THOROUGH { 40 } else { 8 };
    let mut r: Rx<Nec<C>> = Rx::new(freq);
    gap(&mut r, freq, 999);
    let bits = C::sample(1);
    let mut last: Option<C> = None;
    gen_nec(C::HEADER, bits, |tag, us, rising, l| {
        let x = r.event(jit(100 + tag, us, freq), rising);
        if l {
            last = x.ok().flatten();
        }
    });
    for i in 0..M {
        let _ = r.event(any_u32(1000 + 2 * i), false);
        if let Ok(Some(c)) = r.event(any_u32(1001 + 2 * i), true) {
            if c.rep() {
                check(last.is_some(), 30);
                if let Some(l) = last {
                    check(c.same_but_repeat(&l), 31);
                    cover(true, 1);
                }
            } else {
                last = Some(c);
            }
        }
    }
}

/// The flag is what the command tells through its trait.
#[inline(always)]
fn flag() {
    let (w, repeat) = (any_u32(1), any_bool(2));
    if let Some(c) = <NecCommand as NecCommandVariant>::unpack(w, repeat) {
        check(c.repeat == repeat && Command::is_repeat(&c) == repeat, 40);
    }
    if let Some(c) = <SamsungNecCommand as NecCommandVariant>::unpack(w, repeat) {
        check(c.repeat == repeat && Command::is_repeat(&c) == repeat, 41);
    }
    if let Some(c) = <AppleNecCommand as NecCommandVariant>::unpack(w, repeat) {
        check(c.repeat == repeat && Command::is_repeat(&c) == repeat, 42);
        cover(true, 1);
    }
    cover(true, 2);
}

harnesses! {
    fn h_c08_flag() { flag() }
    fn h_c08_held_std() { held::<NecCommand>(1_000_000) }
    fn h_c08_held_samsung() { held::<SamsungNecCommand>(40_000) }
    fn h_c08_held_nec16() { held::<Nec16Command>(1_000_000) }
    fn h_c08_held_apple() { held::<AppleNecCommand>(1_000_000) }
    fn h_c08_honest_std() { honest::<NecCommand>(1_000_000) }
    fn h_c08_honest_samsung() { honest::<SamsungNecCommand>(40_000) }
    fn h_c08_after_std() { after::<NecCommand>(1_000_000) }
    fn h_c08_after_samsung() { after::<SamsungNecCommand>(1_000_000) }
    fn h_c08_after_nec16() { after::<Nec16Command>(40_000) }
    fn h_c08_after_apple() { after::<AppleNecCommand>(1_000_000) }
}
