//! C19: encoded frames are the protocol's frames: marks and spaces in the right order,
//! with the right lengths, complete.
use crate::rt::*;
use crate::sig::*;
use infrared::protocol::nec::{AppleNecCommand, Nec16Command, NecCommand, NecCommandVariant, NecDebugCmd, SamsungNecCommand};
use infrared::protocol::rc5::Rc5Command;
use infrared::protocol::rc6::Rc6Command;
use infrared::protocol::{Nec, Rc5, Rc6};
use infrared::sender::ProtocolEncoder;

const S: usize = 80;

/// `d` ticks are `us` microseconds at `freq` Hz, up to one tick per `unit` microseconds.
#[inline(always)]
fn fits(d: u32, us: u32, unit: u32, freq: u32) -> bool {
    let exact = us as u64 * freq as u64; // in ticks * 1e6
    let tol = ((us + unit - 1) / unit) as u64 * 1_000_000;
    let x = d as u64 * 1_000_000;
    x <= exact && x + tol > exact || x > exact && x < exact + tol
}

/// Reads the entries of an encoded frame one by one.
struct Reader {
    buf: [u32; S],
    n: usize,
    i: usize,
    freq: u32,
    unit: u32,
}
impl Reader {
    #[inline(always)]
    fn new<P: ProtocolEncoder<F>, const F: u32>(cmd: &P::Cmd, unit: u32) -> Self {
        let mut buf = [0u32; S];
        for i in 0..S {
            buf[i] = 7777;
        }
        let n = P::encode(cmd, &mut buf);
        check(n <= S, 1);
        assume(n <= S);
        check(buf[0] == 0, 2); // transmission starts at once
        Reader { buf, n, i: 1, freq: F, unit }
    }
    #[inline(always)]
    fn next(&mut self, us: u32, mark_ended: bool) {
        check(self.i < self.n, 3);
        assume(self.i < S);
        check(mark_ended == (self.i % 2 == 1), 4);
        check(fits(self.buf[self.i], us, self.unit, self.freq), 5);
        self.i += 1;
    }
    /// Nothing after the end, and the transmitter is off.
    #[inline(always)]
    fn end(&self) {
        check(self.i == self.n, 6);
        check(self.n % 2 == 0, 7);
        observe(self.n as u64, 1);
        cover(true, 1);
    }
}

#[inline(always)]
fn nec<C: NecCommandVariant, const F: u32>(cmd: C, bits: u32, header: u32)
where
    Nec<C>: ProtocolEncoder<F, Cmd = C>,
{
    let mut r = Reader::new::<Nec<C>, F>(&cmd, 20_000);
    gen_nec(header, bits, |_, us, rising, _| r.next(us, !rising));
    r.next(560, true); // the stop mark
    r.end();
}

#[inline(always)]
fn standard<const F: u32>() {
    let (addr, cmd, repeat) = (any_u8(1), any_u8(2), any_bool(3));
    nec::<NecCommand, F>(NecCommand { addr, cmd, repeat }, u32::from_le_bytes([addr, !addr, cmd, !cmd]), 9000);
}
#[inline(always)]
fn samsung<const F: u32>() {
    let (addr, cmd, repeat) = (any_u8(1), any_u8(2), any_bool(3));
    nec::<SamsungNecCommand, F>(SamsungNecCommand { addr, cmd, repeat }, u32::from_le_bytes([addr, addr, cmd, !cmd]), 4500);
}
#[inline(always)]
fn nec16<const F: u32>() {
    let (addr, cmd, repeat) = (any_u16(1), any_u8(2), any_bool(3));
    nec::<Nec16Command, F>(Nec16Command { addr, cmd, repeat }, u32::from_le_bytes([addr as u8, (addr >> 8) as u8, cmd, !cmd]), 9000);
}
#[inline(always)]
fn raw<const F: u32>() {
    let bits = any_u32(1);
    nec::<NecDebugCmd, F>(NecDebugCmd { bits }, bits, 9000);
}
#[inline(always)]
fn apple<const F: u32>() {
    let (page, command, device_id) = (any_u8(1) & 0x1F, any_u8(2) & 0x7F, any_u8(3));
    let w = page as u32 | 0x43F << 5 | (command as u32) << 17 | (device_id as u32) << 24;
    let w = if w.count_ones() % 2 == 0 { w | 1 << 16 } else { w };
    nec::<AppleNecCommand, F>(AppleNecCommand { command_page: page, command, device_id, repeat: false }, w, 9000);
}

#[inline(always)]
fn rc5<const F: u32>() {
    let (addr, cmd, toggle) = (any_u8(1) & 31, any_u8(2) & 63, any_bool(3));
    let word = 1 << 12 | (toggle as u16) << 11 | (addr as u16) << 6 | cmd as u16;
    let mut r = Reader::new::<Rc5, F>(&Rc5Command::new(addr, cmd, toggle), 889);
    gen_rc5(word, |_, us, rising, _| r.next(us, !rising));
    if word & 1 == 1 {
        r.next(889, true); // the second half of the last bit is a mark
    }
    r.end();
}

#[inline(always)]
fn rc6<const F: u32>(addr: u8, cmd: u8, toggle: bool) {
    let word = (addr as u16) << 8 | cmd as u16;
    let mut k = Rc6Command::new(addr, cmd);
    k.toggle = toggle;
    let mut r = Reader::new::<Rc6, F>(&k, 444);
    gen_rc6(toggle, word, |_, us, rising, _| r.next(us, !rising));
    if word & 1 == 0 {
        r.next(444, true);
    }
    r.end();
}

harnesses! {
    fn h_c19_nec20k() { standard::<20_000>() }
    fn h_c19_nec40k() { standard::<40_000>() }
    fn h_c19_nec1m() { standard::<1_000_000>() }
    fn h_c19_nec48m() { standard::<48_000_000>() }
    fn h_c19_samsung() { samsung::<40_000>() }
    fn h_c19_samsung1m() { samsung::<1_000_000>() }
    fn h_c19_nec16() { nec16::<38_000>() }
    fn h_c19_raw() { raw::<40_000>() }
    fn h_c19_apple() { apple::<40_000>() }
    fn h_c19_rc5_20k() { rc5::<20_000>() }
    fn h_c19_rc5_1m() { rc5::<1_000_000>() }
    fn h_c19_rc5_48m() { rc5::<48_000_000>() }
    fn h_c19_rc6_a0() { rc6::<40_000>(any_u8(1), 0x5A, false) }
    fn h_c19_rc6_a1() { rc6::<1_000_000>(any_u8(1), 0xFF, true) }
    fn h_c19_rc6_c0() { rc6::<1_000_000>(0x00, any_u8(1), false) }
    fn h_c19_rc6_c1() { rc6::<40_000>(0xC6, any_u8(1), true) }
    #[cfg(feature = "thorough")]
    fn h_c19_rc6_all() { rc6::<40_000>(any_u8(1), any_u8(2), any_bool(3)) }
}
