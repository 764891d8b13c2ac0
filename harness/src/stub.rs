//! A stub protocol that makes every call a receiver makes on its decoder visible: each
//! event is folded into a digest together with the edge; the low bits of the duration say
//! what the decoder answers.
#![allow(dead_code)]
use infrared::cmd::AnyCommand;
use infrared::receiver::time::{InfraMonotonic, PulseSpans};
use infrared::receiver::{DecoderBuilder, DecodingError, ProtocolDecoder, State};
use infrared::{Protocol, ProtocolId};

/// The duration types of the supported clocks.
pub trait Ticks: Copy {
    fn ticks(self) -> u64;
    fn of(t: u64) -> Self;
}
impl Ticks for u32 {
    fn ticks(self) -> u64 {
        self as u64
    }
    fn of(t: u64) -> Self {
        t as u32
    }
}
impl Ticks for u64 {
    fn ticks(self) -> u64 {
        self
    }
    fn of(t: u64) -> Self {
        t
    }
}
impl<const N: u32, const D: u32> Ticks for fugit::Duration<u32, N, D> {
    fn ticks(self) -> u64 {
        fugit::Duration::<u32, N, D>::ticks(&self) as u64
    }
    fn of(t: u64) -> Self {
        Self::from_ticks(t as u32)
    }
}
impl<const N: u32, const D: u32> Ticks for fugit::Duration<u64, N, D> {
    fn ticks(self) -> u64 {
        fugit::Duration::<u64, N, D>::ticks(&self)
    }
    fn of(t: u64) -> Self {
        Self::from_ticks(t)
    }
}

pub struct Stub<const SEED: u32 = 0>;

#[derive(Debug, Clone, Copy, PartialEq)]
pub struct StubCmd {
    pub digest: u64,
    pub freq: u32,
}

impl From<StubCmd> for AnyCommand {
    fn from(c: StubCmd) -> AnyCommand {
        AnyCommand { protocol: ProtocolId::Unknown, raw: c.digest, address: c.freq, command: 1, repeat: false }
    }
}

impl<const SEED: u32> Protocol for Stub<SEED> {
    type Cmd = StubCmd;
}

impl<Mono: InfraMonotonic, const SEED: u32> DecoderBuilder<Mono> for Stub<SEED>
where
    Mono::Duration: Ticks,
{
    type Decoder = StubDecoder<Mono, SEED>;
    fn build(freq: u32) -> Self::Decoder {
        StubDecoder {
            digest: SEED as u64,
            done: None,
            freq,
            spans: PulseSpans::new(1_000_000, &[1, 0, 0, 0, 0, 0, 0, 0], &[0; 8]),
        }
    }
}

pub struct StubDecoder<Mono: InfraMonotonic, const SEED: u32> {
    digest: u64,
    done: Option<bool>,
    freq: u32,
    spans: PulseSpans<Mono>,
}

impl<Mono: InfraMonotonic, const SEED: u32> ProtocolDecoder<Stub<SEED>, Mono> for StubDecoder<Mono, SEED>
where
    Mono::Duration: Ticks,
{
    #[inline(always)]
    fn event(&mut self, edge: bool, dt: Mono::Duration) -> State {
        let dt = dt.ticks();
        self.digest = self.digest.rotate_left(7) ^ dt ^ (edge as u64) << 63;
        // what the decoder answers, different for differently seeded stubs
        let a = dt ^ SEED as u64;
        match a & 7 {
            0 | 1 => State::Idle,
            2 => State::Receiving,
            3 => {
                self.done = Some(true);
                State::Done
            }
            4 => {
                self.done = Some(false); // done, but no command
                State::Done
            }
            5 => State::Error(DecodingError::Address),
            6 => State::Error(DecodingError::Data),
            _ => State::Error(if a & 8 == 0 { DecodingError::Validation } else { DecodingError::RemoteControlError }),
        }
    }
    #[inline(always)]
    fn command(&self) -> Option<StubCmd> {
        match self.done {
            Some(true) => Some(StubCmd { digest: self.digest, freq: self.freq }),
            _ => None,
        }
    }
    #[inline(always)]
    fn reset(&mut self) {
        self.digest = self.digest ^ 0x5555_0000; // visible, and history is kept on purpose
        self.done = None;
    }
    fn spans(&self) -> &PulseSpans<Mono> {
        &self.spans
    }
}

/// What the documentation promises for one event: the decoder is fed, and reset after a
/// command or an error.
#[derive(Clone, Copy)]
pub struct Model {
    pub digest: u64,
    pub seed: u64,
}
impl Model {
    pub fn new(seed: u32) -> Self {
        Model { digest: seed as u64, seed: seed as u64 }
    }
    /// (digest if a command is reported, error)
    #[inline(always)]
    pub fn event(&mut self, edge: bool, dt: u64) -> (Option<u64>, Option<DecodingError>) {
        self.digest = self.digest.rotate_left(7) ^ dt ^ (edge as u64) << 63;
        let before = self.digest;
        let a = dt ^ self.seed;
        if a & 7 >= 3 {
            self.digest ^= 0x5555_0000;
        }
        match a & 7 {
            0..=2 => (None, None),
            3 => (Some(before), None),
            4 => (None, None),
            5 => (None, Some(DecodingError::Address)),
            6 => (None, Some(DecodingError::Data)),
            _ => (None, Some(if a & 8 == 0 { DecodingError::Validation } else { DecodingError::RemoteControlError })),
        }
    }
}

/// Does a receiver's answer agree with the model's?
#[inline(always)]
pub fn agrees(x: &Result<Option<StubCmd>, DecodingError>, m: &(Option<u64>, Option<DecodingError>)) -> bool {
    match (x, m) {
        (Ok(None), (None, None)) => true,
        (Ok(Some(c)), (Some(d), None)) => c.digest == *d,
        (Err(e), (None, Some(f))) => e == f,
        _ => false,
    }
}

/// A protocol whose decoder reports every event as a command: (duration, edge, events so far).
pub struct Probe;
impl Protocol for Probe {
    type Cmd = StubCmd;
}
impl<Mono: InfraMonotonic> DecoderBuilder<Mono> for Probe
where
    Mono::Duration: Ticks,
{
    type Decoder = ProbeDecoder<Mono>;
    fn build(freq: u32) -> Self::Decoder {
        ProbeDecoder { last: None, freq, spans: PulseSpans::new(1_000_000, &[1, 0, 0, 0, 0, 0, 0, 0], &[0; 8]) }
    }
}
pub struct ProbeDecoder<Mono: InfraMonotonic> {
    last: Option<u64>,
    freq: u32,
    spans: PulseSpans<Mono>,
}
impl<Mono: InfraMonotonic> ProtocolDecoder<Probe, Mono> for ProbeDecoder<Mono>
where
    Mono::Duration: Ticks,
{
    #[inline(always)]
    fn event(&mut self, edge: bool, dt: Mono::Duration) -> State {
        self.last = Some(dt.ticks() << 1 | edge as u64);
        State::Done
    }
    #[inline(always)]
    fn command(&self) -> Option<StubCmd> {
        self.last.map(|d| StubCmd { digest: d, freq: self.freq })
    }
    #[inline(always)]
    fn reset(&mut self) {
        self.last = None;
    }
    fn spans(&self) -> &PulseSpans<Mono> {
        &self.spans
    }
}
