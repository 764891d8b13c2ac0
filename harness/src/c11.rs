//! C11: the buffer iterator reports what the event receiver reports.
use crate::rt::*;
use crate::sig::*;
use crate::stub::*;
use infrared::protocol::{Denon, Nec, Sbp};
use infrared::receiver::{BufferInputReceiver, DecoderBuilder};

const N: usize = if THOROUGH { 10 } else { 6 };

/// Any buffer: the commands of the edges in order, nothing else, nothing missing.
#[inline(always)]
fn any_buffer(len: usize, with: bool) {
    let mut buf = [0u32; N];
    let mut exp = [0u64; N + 1];
    let mut n = 0;
    let mut m = Model::new(0);
    for i in 0..len {
        buf[i] = any_u32(1 + i as u32);
        if let (Some(d), _) = m.event(i % 2 == 0, buf[i] as u64) {
            exp[n] = d;
            n += 1;
        }
    }
    let mut b: BufferInputReceiver<Stub> = BufferInputReceiver::with_frequenzy(40_000);
    let mut k = 0;
    if with {
        let it = b.iter_with::<Stub, u32, StubCmd>(40_000, &buf[..len]);
        for c in it {
            check(k < n, 1);
            check(c.digest == exp[k], 2);
            k += 1;
        }
    } else {
        let it = b.iter(&buf[..len]);
        for c in it {
            check(k < n, 1);
            check(c.digest == exp[k], 2);
            k += 1;
        }
    }
    check(k == n, 3);
    cover(n == len, 1);
    if len > 2 {
        cover(n == 1 && buf[0] & 7 == 5 && buf[1] & 7 == 4, 2);
    }
    observe(n as u64, 1);
}

/// Real frames in one buffer, a broken one in between: iterator and receiver agree edge by edge.
#[inline(always)]
fn frames<P: DecoderBuilder<u32>, const L: usize>(freq: u32, buf: &[u32; L], n: usize, same: impl Fn(&P::Cmd, &P::Cmd) -> bool) {
    let mut r: Rx<P> = Rx::new(freq);
    let mut b: BufferInputReceiver<P> = BufferInputReceiver::with_frequenzy(freq);
    let mut it = b.iter(&buf[..n]);
    let mut found = 0;
    for i in 0..n {
        if let Ok(Some(c)) = r.event(buf[i], i % 2 == 0) {
            found += 1;
            match it.next() {
                Some(d) => check(same(&c, &d), 11),
                None => check(false, 12),
            }
        }
    }
    check(it.next().is_none(), 13);
    check(found == 2, 14);
    observe(found, 1);
    cover(true, 1);
}

struct Cut<const L: usize> {
    buf: [u32; L],
    n: usize,
}
impl<const L: usize> Cut<L> {
    fn new() -> Self {
        let mut c = Cut { buf: [0; L], n: 1 };
        c.buf[0] = 50_000;
        c
    }
    fn put(&mut self, d: u32) {
        self.buf[self.n] = d;
        self.n += 1;
    }
}

#[inline(always)]
fn nec() {
    let freq = 1_000_000;
    let mut c = Cut::<240>::new();
    let (a, b) = (any_u32(1), any_u32(2));
    gen_nec(9000, a, |_, us, _, _| c.put(us));
    c.put(560);
    c.put(40_000);
    // a frame that breaks off
    gen_nec(9000, b, |t, us, _, _| {
        if t < 12 {
            c.put(us)
        }
    });
    c.put(560);
    c.put(40_000);
    gen_nec(9000, b, |_, us, _, _| c.put(us));
    frames::<Nec, 240>(freq, &c.buf, c.n, |x, y| x == y);
}

#[inline(always)]
fn denon() {
    let freq = 1_000_000;
    let mut c = Cut::<300>::new();
    let (a, b) = (any_u64(1), any_u64(2));
    gen_denon(a, |_, us, _, _| c.put(us));
    c.put(480);
    c.put(40_000);
    gen_denon(b, |_, us, _, _| c.put(us));
    frames::<Denon, 300>(freq, &c.buf, c.n, |x, y| x.bits == y.bits);
}

#[inline(always)]
fn sbp() {
    let freq = 1_000_000;
    let mut c = Cut::<260>::new();
    let (a, b) = (any_u16(1), any_u32(2));
    gen_sbp(a, b, |_, us, _, _| c.put(us));
    c.put(500);
    c.put(40_000);
    gen_sbp(a, b, |t, us, _, _| {
        if t < 10 {
            c.put(us)
        }
    });
    c.put(500);
    c.put(40_000);
    gen_sbp(a, b, |_, us, _, _| c.put(us));
    frames::<Sbp, 260>(freq, &c.buf, c.n, |x, y| x.address == y.address && x.command == y.command && x.valid == y.valid);
}

harnesses! {
    fn h_c11_any0() { any_buffer(0, false) }
    fn h_c11_any1() { any_buffer(1, false) }
    fn h_c11_any2() { any_buffer(2, true) }
    fn h_c11_any() { any_buffer(N, false) }
    fn h_c11_any_with() { any_buffer(N - 1, true) }
    fn h_c11_nec() { nec() }
    fn h_c11_denon() { denon() }
    fn h_c11_sbp() { sbp() }
}
