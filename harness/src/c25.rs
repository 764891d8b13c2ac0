//! C25: remote controls map commands to buttons and back.
use crate::rt::*;
use infrared::cmd::{AddressCommand, Command};
use infrared::protocol::nec::{AppleNecCommand, NecCommand, SamsungNecCommand};
use infrared::protocol::rc5::Rc5Command;
use infrared::protocol::sbp::SbpCommand;
use infrared::remotecontrol::nec::{Apple2009, SamsungTv, SpecialForMp3};
use infrared::remotecontrol::rc5::CdPlayer;
use infrared::remotecontrol::sbp::SamsungBluRayPlayer;
use infrared::remotecontrol::Action::{self, *};
use infrared::remotecontrol::{Button, RemoteControlModel};

/// Documented key codes (the oracle).
type Keys = &'static [(u32, Action)];
const MP3: Keys = &[
    (69, Power), (70, Mode), (71, Mute), (68, Play_Pause), (64, Prev), (67, Next), (7, Eq), (21, Minus), (9, Plus), (22, Zero), (25, Shuffle),
    (13, U_SD), (12, One), (24, Two), (94, Three), (8, Four), (28, Five), (90, Six), (66, Seven), (82, Eight), (74, Nine),
];
const TV: Keys = &[
    (2, Power), (1, Source), (4, One), (5, Two), (6, Three), (8, Four), (9, Five), (10, Six), (12, Seven), (13, Eight), (14, Nine), (17, Zero),
    (44, Teletext), (19, ChannelPrev), (7, VolumeUp), (11, VolumeDown), (15, VolumeMute), (107, ChannelList), (18, ChannelListNext),
    (16, ChannelListPrev), (75, Tools), (31, Info), (88, Return), (45, Exit), (104, Enter), (96, Up), (97, Down), (101, Left), (98, Right),
    (108, Red), (20, Green), (21, Yellow), (22, Blue), (63, Emanual), (62, PictureSize), (37, Subtitle), (70, Stop), (69, Rewind), (71, Play),
    (74, Paus), (72, Forward),
];
const CD: Keys = &[
    (1, One), (2, Two), (3, Three), (4, Four), (5, Five), (6, Six), (7, Seven), (8, Eight), (9, Nine), (11, Time), (12, Power), (16, Up),
    (17, Down), (18, Setup), (21, Left), (22, Right), (23, Enter), (28, Random), (29, Repeat), (32, Next), (33, Prev), (37, PitchReset),
    (38, PitchPlus), (39, PitchMinus), (41, Prog), (48, Paus), (53, Play), (54, Stop),
];
const BR: Keys = &[(2, One), (3, Two), (4, Three), (5, Four), (6, Five), (7, Six), (8, Seven), (9, Eight), (10, Nine)];
const APPLE: Keys = &[
    (0x0E01, Menu), (0x0E02, Play_Pause), (0x0E03, Right), (0x0E04, Left), (0x0E05, Up), (0x0E06, Down), (0x0E2E, Enter), (0x0E2F, Play_Pause2),
    (0x0003, BatteryLow), (0x0007, BatteryLow),
];
const ALL: &[Action] = &[
    Power, Source, One, Two, Three, Four, Five, Six, Seven, Eight, Nine, Zero, Teletext, ChannelPrev, VolumeUp, VolumeDown, VolumeMute, ChannelList,
    ChannelListNext, ChannelListPrev, Tools, Info, Return, Exit, Enter, Up, Down, Left, Right, Red, Green, Yellow, Blue, Emanual, PictureSize,
    Subtitle, Stop, Rewind, Play, Paus, Play_Pause, Play_Pause2, Forward, Mode, Shuffle, U_SD, Plus, Minus, Next, Prev, Eq, Mute, Random, Repeat,
    Time, Setup, Menu, PitchReset, PitchPlus, PitchMinus, Prog, BatteryLow,
];

#[inline(always)]
fn by_code(keys: Keys, code: u32) -> Option<Action> {
    let mut out = None;
    for (c, a) in keys {
        if *c == code {
            out = Some(*a);
        }
    }
    out
}
#[inline(always)]
fn by_action(keys: Keys, x: Action) -> Option<u32> {
    let mut out = None;
    for (c, a) in keys {
        if *a == x {
            out = Some(*c);
        }
    }
    out
}
#[inline(never)]
fn decode<R: RemoteControlModel>(c: &R::Cmd) -> Option<Action> {
    R::decode(c)
}
#[inline(never)]
fn encode<R: RemoteControlModel>(a: &Action) -> Option<R::Cmd> {
    R::encode(a)
}

/// A received command (`code`, for this device or not) means `want` and nothing else.
#[inline(always)]
fn received<R: RemoteControlModel>(cmd: R::Cmd, keys: Keys, mine: bool, code: u32) {
    let want = if mine { by_code(keys, code) } else { None };
    check(decode::<R>(&cmd) == want, 1);
    let (a, c, r) = (cmd.address(), cmd.command(), cmd.is_repeat());
    let b: Button<R> = cmd.into();
    check(b.action() == want, 2);
    check(b.command().address() == a && b.command().command() == c && b.is_repeat() == r, 3);
    cover(want.is_some(), 1);
    cover(want.is_none() && mine, 2);
}

/// Every button of the remote encodes to a command that decodes to the button again.
#[inline(always)]
fn sent<R: RemoteControlModel>(keys: Keys, addr: u32) {
    let a = ALL[any_in(50, 0, ALL.len() as u32 - 1) as usize];
    let want = by_action(keys, a);
    match encode::<R>(&a) {
        Some(c) => {
            check(Some(c.command()) == want && c.address() == addr && !c.is_repeat(), 11);
            check(decode::<R>(&c) == Some(a), 12);
        }
        None => check(want.is_none(), 13),
    }
    check(R::PROTOCOL == <R::Cmd as AddressCommand>::ID && R::ADDRESS == addr, 14);
    cover(want.is_some(), 11);
    cover(want.is_none(), 12);
}

#[inline(always)]
fn mp3() {
    let (addr, cmd, repeat) = (any_u8(1), any_u8(2), any_bool(3));
    received::<SpecialForMp3>(NecCommand { addr, cmd, repeat }, MP3, addr == 0, cmd as u32);
}
#[inline(always)]
fn tv() {
    let (addr, cmd, repeat) = (any_u8(1), any_u8(2), any_bool(3));
    received::<SamsungTv>(SamsungNecCommand { addr, cmd, repeat }, TV, addr == 7, cmd as u32);
}
#[inline(always)]
fn cd() {
    let w = any_u16(1);
    received::<CdPlayer>(Rc5Command::unpack(w), CD, w >> 6 & 31 == 20, (w & 63) as u32);
}
#[inline(always)]
fn br() {
    let (address, command) = (any_u16(1), any_u8(2));
    received::<SamsungBluRayPlayer>(SbpCommand { address, command, valid: true }, BR, address == 32, command as u32);
}
#[inline(always)]
fn apple() {
    let (page, command, device_id, repeat) = (any_in(1, 0, 31) as u8, any_in(2, 0, 127) as u8, any_u8(3), any_bool(4));
    let c = AppleNecCommand { command_page: page, command, device_id, repeat };
    received::<Apple2009>(c, APPLE, true, (page as u32) << 8 | command as u32);
    check(Apple2009::PROTOCOL == AppleNecCommand::ID, 14);
}
/// No two actions have the same name, and every action has one.
#[inline(always)]
fn names() {
    let (i, j) = (any_in(1, 0, ALL.len() as u32 - 1) as usize, any_in(2, 0, ALL.len() as u32 - 1) as usize);
    let (a, b) = (ALL[i].to_str().as_bytes(), ALL[j].to_str().as_bytes());
    check(a.len() > 0 && a.len() < 24, 21);
    let mut same = a.len() == b.len();
    for k in 0..24 {
        if k < a.len() && k < b.len() {
            same = same && a[k] == b[k];
        }
    }
    check(same == (i == j), 22);
    check((ALL[i] == ALL[j]) == (i == j), 23);
    cover(i != j, 1);
}

harnesses! {
    fn h_c25_mp3() { mp3() }
    fn h_c25_tv() { tv() }
    fn h_c25_cd() { cd() }
    fn h_c25_br() { br() }
    fn h_c25_apple() { apple() }
    fn h_c25_mp3_send() { sent::<SpecialForMp3>(MP3, 0) }
    fn h_c25_tv_send() { sent::<SamsungTv>(TV, 7) }
    fn h_c25_cd_send() { sent::<CdPlayer>(CD, 20) }
    fn h_c25_br_send() { sent::<SamsungBluRayPlayer>(BR, 32) }
    fn h_c25_names() { names() }
}
