//! C09: nothing a receiver or encoder is given makes it panic.
//! (Every panic, overflow and out-of-bounds access reachable in the executed code is a
//! verification condition of its own; the harnesses only have to supply the inputs.)
use crate::age::age;
use crate::rt::*;
use crate::sig::*;
use crate::stub::Ticks;
use fugit::{TimerInstantU32, TimerInstantU64};
use infrared::protocol::nec::{AppleNecCommand, Nec16Command, NecCommand, NecDebugCmd, SamsungNecCommand};
use infrared::protocol::rc5::Rc5Command;
use infrared::protocol::rc6::Rc6Command;
use infrared::protocol::{AppleNec, Denon, Nec, Nec16, NecDebug, Rc5, Rc6, SamsungNec, Sbp};
use infrared::receiver::time::InfraMonotonic;
use infrared::receiver::{DecoderBuilder, NoPin, ProtocolDecoder};
use infrared::sender::{ProtocolEncoder, PulsedataSender};
use infrared::{PeriodicPoll, Receiver};

const N: u32 = if THOROUGH { 40 } else { 16 };

/// Any durations, any edges (also two alike in a row).
#[inline(always)]
fn stream<P: DecoderBuilder<M>, M: InfraMonotonic>(freq: u32)
where
    M::Duration: Ticks,
{
    let mut r: Receiver<P, NoPin, M> = Receiver::new(freq);
    for i in 0..N {
        let _ = r.event(M::Duration::of(any_u64(100 + i)), any_bool(1 + i));
    }
    cover(true, 1);
}
/// Any frequency, any clock.
#[inline(always)]
fn rates<P: DecoderBuilder<u32> + DecoderBuilder<u64>>() {
    let freq = any_u32(1);
    let a = <P as DecoderBuilder<u32>>::build(freq);
    let b = <P as DecoderBuilder<u64>>::build(freq);
    let _ = ProtocolDecoder::<P, u32>::spans(&a).get::<usize>(any_u32(2));
    let _ = ProtocolDecoder::<P, u64>::spans(&b).get::<usize>(any_u64(3));
    let _ = ProtocolDecoder::<P, u32>::spans(&a).check_overlaps();
    let mut r: PeriodicPoll<P> = PeriodicPoll::new(freq);
    for i in 0..4 {
        let _ = r.poll(any_bool(10 + i));
    }
    cover(freq == 0, 1);
    cover(freq == u32::MAX, 2);
}

/// A frame up to edge `k`, then any durations and edges: the ends of all counters.
struct Tail<P: DecoderBuilder<u32>> {
    r: Rx<P>,
    k: u32,
}
impl<P: DecoderBuilder<u32>> Tail<P> {
    #[inline(always)]
    fn new(k: u32) -> Self {
        let mut r: Rx<P> = Rx::new(1_000_000);
        let _ = r.event(any_in(1, 20_000, u32::MAX), true);
        Tail { r, k }
    }
    #[inline(always)]
    fn put(&mut self, t: u32, us: u32, rising: bool) {
        if t < self.k {
            let _ = self.r.event(us, rising);
        }
    }
    #[inline(always)]
    fn end(mut self) {
        for i in 0..10 {
            let _ = self.r.event(any_u32(100 + i), any_bool(200 + i));
        }
        cover(true, 1);
    }
}
#[inline(always)]
fn nec_tail<P: DecoderBuilder<u32>>(header: u32) {
    let mut t = Tail::<P>::new(58);
    gen_nec(header, any_u32(10), |k, us, e, _| t.put(k, us, e));
    t.end();
}
#[inline(always)]
fn rc5_tail() {
    let mut t = Tail::<Rc5>::new(18);
    gen_rc5(any_u16(10) & 0x1FFF, |k, us, e, _| t.put(k, us, e));
    t.end();
}
#[inline(always)]
fn rc6_tail(edge: u32) {
    let mut t = Tail::<Rc6>::new(edge);
    gen_rc6(any_bool(11), any_u16(10), |k, us, e, _| t.put(k, us, e));
    t.end();
}
#[inline(always)]
fn sbp_tail(edge: u32) {
    let mut t = Tail::<Sbp>::new(edge);
    gen_sbp(any_u16(10), any_u32(11) & 0xF_FFFF, |k, us, e, _| t.put(k, us, e));
    t.end();
}
#[inline(always)]
fn denon_tail() {
    let mut t = Tail::<Denon>::new(90);
    gen_denon(any_u64(10) & 0xFFFF_FFFF_FFFF, |k, us, e, _| t.put(k, us, e));
    t.end();
}

/// Time stamps in any order.
#[inline(always)]
fn stamps<P: DecoderBuilder<u32> + DecoderBuilder<u64>>() {
    let mut a: Receiver<P, NoPin, u32> = Receiver::new(1_000_000);
    let mut b: Receiver<P, NoPin, u64> = Receiver::new(1_000_000);
    for i in 0..4 {
        let (t, e) = (any_u64(10 + i), any_bool(20 + i));
        let _ = a.event_instant(t as u32, e);
        let _ = b.event_instant(t, e);
    }
    cover(true, 1);
}

/// Encoding and loading any command whatsoever.
#[inline(always)]
fn enc<P: ProtocolEncoder<F>, const F: u32>(c: &P::Cmd) {
    let mut s: PulsedataSender<96> = PulsedataSender::new();
    s.load_command::<P, F>(c);
    check(s.buffer().len() <= 96, 1);
    cover(true, 1);
}
#[inline(always)]
fn enc_nec<const F: u32>() {
    let (addr, cmd, repeat) = (any_u8(1), any_u8(2), any_bool(3));
    enc::<Nec, F>(&NecCommand { addr, cmd, repeat });
    enc::<SamsungNec, F>(&SamsungNecCommand { addr, cmd, repeat });
    enc::<Nec16, F>(&Nec16Command { addr: any_u16(4), cmd, repeat });
    enc::<NecDebug, F>(&NecDebugCmd { bits: any_u32(5) });
    enc::<AppleNec, F>(&AppleNecCommand { command_page: addr, command: cmd, device_id: any_u8(6), repeat });
}
#[inline(always)]
fn enc_rc5<const F: u32>() {
    enc::<Rc5, F>(&Rc5Command { addr: any_u8(1), cmd: any_u8(2), start: any_u8(3), toggle: any_bool(4) });
}
#[inline(always)]
fn enc_rc6<const F: u32>(addr: u8, cmd: u8) {
    enc::<Rc6, F>(&Rc6Command { addr, cmd, toggle: any_bool(9) });
}

type F32 = TimerInstantU32<1_000_000>;
type F64 = TimerInstantU64<48_000_000>;

/// Polling, with any uptime between the level changes.
#[inline(always)]
fn polled<P: DecoderBuilder<u32>>(freq: u32) {
    let mut p = PeriodicPoll::<P>::new(freq);
    let mut lv = any_bool(1);
    let _ = p.poll(lv);
    for k in 0..4 {
        let _ = age(&mut p, any_u32(10 + k), |p| {
            let _ = p.poll(lv);
        });
        let _ = p.poll(any_bool(20 + k));
        lv = !lv;
        let _ = p.poll(lv);
    }
    cover(true, 1);
}

harnesses! {
    fn h_c09_poll_nec() { polled::<Nec>(40_000) }
    fn h_c09_poll_rc5() { polled::<Rc5>(20_000) }
    fn h_c09_poll_rc6() { polled::<Rc6>(40_000) }
    fn h_c09_poll_sbp() { polled::<Sbp>(40_000) }
    fn h_c09_poll_denon() { polled::<Denon>(20_000) }
    fn h_c09_st_nec() { stream::<Nec, u32>(40_000) }
    fn h_c09_st_nec64() { stream::<Nec, u64>(1_000_000) }
    fn h_c09_st_nec_f32() { stream::<Nec, F32>(1_000_000) }
    fn h_c09_st_nec_f64() { stream::<Nec, F64>(48_000_000) }
    fn h_c09_st_samsung() { stream::<SamsungNec, u32>(1_000_000) }
    fn h_c09_st_apple() { stream::<AppleNec, u32>(1_000_000) }
    fn h_c09_st_nec16() { stream::<Nec16, u32>(1_000_000) }
    fn h_c09_st_rc5() { stream::<Rc5, u32>(40_000) }
    fn h_c09_st_rc5_f32() { stream::<Rc5, F32>(1_000_000) }
    fn h_c09_st_rc6() { stream::<Rc6, u32>(40_000) }
    fn h_c09_st_rc6_f64() { stream::<Rc6, F64>(48_000_000) }
    fn h_c09_st_sbp() { stream::<Sbp, u32>(40_000) }
    fn h_c09_st_sbp_f32() { stream::<Sbp, F32>(1_000_000) }
    fn h_c09_st_sbp64() { stream::<Sbp, u64>(40_000) }
    fn h_c09_st_denon() { stream::<Denon, u32>(40_000) }
    fn h_c09_st_denon_f32() { stream::<Denon, F32>(1_000_000) }
    fn h_c09_st_denon64() { stream::<Denon, u64>(40_000) }
    fn h_c09_rate_nec() { rates::<Nec>() }
    fn h_c09_rate_samsung() { rates::<SamsungNec>() }
    fn h_c09_rate_rc5() { rates::<Rc5>() }
    fn h_c09_rate_rc6() { rates::<Rc6>() }
    fn h_c09_rate_sbp() { rates::<Sbp>() }
    fn h_c09_rate_denon() { rates::<Denon>() }
    fn h_c09_tail_nec() { nec_tail::<Nec>(9000) }
    fn h_c09_tail_raw() { nec_tail::<NecDebug>(9000) }
    fn h_c09_tail_apple() { nec_tail::<AppleNec>(9000) }
    fn h_c09_tail_samsung() { nec_tail::<SamsungNec>(4500) }
    fn h_c09_tail_rc5() { rc5_tail() }
    fn h_c09_tail_rc6() { rc6_tail(44) }
    fn h_c09_tail_rc6h() { rc6_tail(6) }
    fn h_c09_tail_sbp() { sbp_tail(74) }
    fn h_c09_tail_sbpa() { sbp_tail(30) }
    fn h_c09_tail_denon() { denon_tail() }
    fn h_c09_stamps_nec() { stamps::<Nec>() }
    fn h_c09_stamps_rc5() { stamps::<Rc5>() }
    fn h_c09_stamps_denon() { stamps::<Denon>() }
    fn h_c09_stamps_sbp() { stamps::<Sbp>() }
    fn h_c09_enc_nec() { enc_nec::<40_000>() }
    fn h_c09_enc_nec1() { enc_nec::<1>() }
    fn h_c09_enc_nec100m() { enc_nec::<100_000_000>() }
    fn h_c09_enc_rc5() { enc_rc5::<40_000>() }
    fn h_c09_enc_rc5m() { enc_rc5::<1_000_000>() }
    fn h_c09_enc_rc6a() { enc_rc6::<40_000>(any_u8(1), 0x3C) }
    fn h_c09_enc_rc6c() { enc_rc6::<1_000_000>(0xA5, any_u8(1)) }
}
