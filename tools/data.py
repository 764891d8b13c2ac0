import os
_H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []


def prop(id, title, statement, over, text, why, files, mech, observe, explanation, bounds, outside, assumptions=(), weights=None):
    if not os.path.exists(_H + '/harness/src/%s.rs' % id.lower()) and id not in NOT_APPLICABLE:
        return
    PROPS.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
        'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech], 'observe_at': observe, 'hook_needed': None},
        'explanation': explanation, 'bounds': bounds, 'outside': outside, 'assumptions': list(assumptions), 'weights': weights or {},
    })


NOT_APPLICABLE = {
    'C29': 'The vcd-parser example is std code over files, heap maps and a third-party VCD parser (string parsing, HashMap, I/O): '
           'pointer-rich heap code behind file I/O that the symbolic executor cannot encode; the decoding core it feeds (the buffer iterator) is decided by C11.',
}

P = 'src/protocol/'
R = 'src/receiver/'
RX = ['Receiver::event', 'Receiver::event_edge']
GAP = ('The receiver first sees a short arbitrary history of alternating edges and then at least 20 ms of silence. ')

prop('C01', 'NEC-family frames with timing jitter decode to exactly the sent command',
     'For every 32-bit payload valid for a NEC variant (standard, 16-bit address, Samsung, Apple, raw), a frame whose every interval is within 5 % of nominal, received after at least 20 ms of silence and whatever came before, is reported exactly once. '
     'The report comes at the edge that closes the 32nd bit, carries exactly the sent fields and is not flagged as a repeat; no other edge of the frame reports a command or an error.',
     ['inputs', 'histories', 'configurations'], 'all payloads x all per-interval jitters within 5 % x prior noise x sampled clock rates from 20 kHz to 1 MHz',
     'The tests replay a handful of recorded frames at one clock rate with one jitter pattern; 2^32 payloads and every jitter combination are out of their reach.',
     [P + 'nec/decoder.rs', P + 'nec/standard.rs', P + 'nec/nec16.rs', P + 'nec/samsung.rs', P + 'nec/apple.rs', P + 'nec/raw.rs', R + 'time.rs', P + 'utils.rs'],
     [('pulse-distance state machine', P + 'nec/decoder.rs'), ('tolerance spans', R + 'time.rs')], RX,
     'Receiver::event executed symbolically over a generated frame (independent generator) with a symbolic payload and one symbolic duration per interval; the solver decides that every edge reports nothing except the last, which reports exactly the payload.',
     'one frame (66 edges) after 4 arbitrary edges (16 in thorough), after a complete earlier frame with any payload, or after one broken off at any edge, and a silence of 20 ms or more; every interval any tick count within 5 % of nominal; clock rates 20 kHz, 40 kHz and 1 MHz (more in thorough).',
     'other clock rates (see C17), longer histories, jitter beyond 5 %, polled sampling (C12).')
prop('C02', 'RC5 frames with timing jitter decode to exactly the sent command',
     'For every RC5 word (second start bit, toggle, 5-bit address, 6-bit command), a frame whose every interval is within 5 % of a whole number of half bits, received at a clock of 20 kHz or more after at least 20 ms of silence and whatever came before, is reported exactly once, at the edge in the middle of its last bit, with exactly the sent fields. '
     'No other edge of the frame reports a command or an error.',
     ['inputs', 'histories', 'configurations'], 'all 13-bit words x all per-interval jitters within 5 % x prior noise x sampled clock rates',
     'Two recorded frames are tested.',
     [P + 'rc5/decoder.rs', P + 'rc5/mod.rs', R + 'time.rs', P + 'utils.rs'],
     [('clock reconstruction from edge distances', P + 'rc5/decoder.rs'), ('bit unpacking', P + 'rc5/mod.rs')], RX,
     'Receiver::event executed over an independently generated bi-phase frame with a symbolic word and symbolic jitter on every interval.',
     'one frame (14 to 27 edges) after 6 arbitrary edges (24 in thorough), after a complete earlier frame with any payload or one broken off at any edge, and silence; clock rates 20 kHz, 40 kHz, 1 MHz (more in thorough).',
     'other clock rates (C17), clocks below 20 kHz where rounding eats the tolerance, jitter beyond 5 %.')
prop('C03', 'RC6 mode-0 frames with timing jitter decode to exactly the sent command',
     'For every RC6 mode-0 frame (toggle, 8-bit address, 8-bit command) whose every interval is within 5 % of a whole number of 444 us units, received at a clock of 40 kHz or more after at least 20 ms of silence and whatever came before, exactly one command is reported, at the middle of the last bit, with exactly the sent address, command and toggle. '
     'No other edge of the frame reports a command or an error.',
     ['inputs', 'histories', 'configurations'], 'all 2^17 frames x all per-interval jitters within 5 % x prior noise x sampled clock rates',
     'One or two recorded frames are tested.',
     [P + 'rc6/decoder.rs', P + 'rc6/cmd.rs', R + 'time.rs'],
     [('clock reconstruction, header and trailer states', P + 'rc6/decoder.rs')], RX,
     'Receiver::event executed over an independently generated frame with symbolic toggle, data word and per-interval jitter.',
     'one frame after 6 arbitrary edges (24 in thorough), after a complete earlier frame with any payload or one broken off at any edge, and silence; clock rates 40 kHz and 1 MHz (more in thorough).',
     'other modes than 0, other clock rates (C17), jitter beyond 5 %.')
prop('C04', 'Samsung Blu-ray frames with jitter decode to exactly the sent command',
     'For every 16-bit address and 20 data bits, a Samsung Blu-ray frame whose every interval is within 5 % of nominal, received after at least 20 ms of silence and whatever came before, is reported exactly once, at the edge closing the last bit. '
     'The report carries the sent address, the sent 8-bit command and a validity flag that is set exactly when the second command byte is the complement of the first; no other edge reports anything.',
     ['inputs', 'histories', 'configurations'], 'all 2^36 payloads x all per-interval jitters within 5 % x prior noise x sampled clock rates',
     'The protocol has no decoding test at all.',
     [P + 'sbp/mod.rs', R + 'time.rs'], [('pulse-distance state machine with divider', P + 'sbp/mod.rs')], RX,
     'Receiver::event executed over an independently generated frame with symbolic payload and jitter.',
     'one frame (76 edges) after 4 arbitrary edges and silence, after a complete earlier frame with any payload, or after one broken off at any edge; clock rates 40 kHz, 1 MHz (more in thorough).',
     'other clock rates (C17), jitter beyond 5 %.')
prop('C05', 'Denon frames with timing jitter decode to exactly the 48 sent bits',
     'For every 48-bit payload, a Denon frame whose every interval is within 5 % of nominal, received after at least 20 ms of silence and whatever came before (including aborted and complete frames), is reported exactly once, at the edge closing the 48th bit, with exactly the sent bits. '
     'No other edge of the frame reports a command or an error.',
     ['inputs', 'histories', 'configurations'], 'all 2^48 payloads x all per-interval jitters within 5 % x prior noise x sampled clock rates',
     'One recorded frame whose last bit is zero is tested.',
     [P + 'denon/mod.rs', R + 'time.rs'], [('pulse-distance state machine', P + 'denon/mod.rs')], RX,
     'Receiver::event executed over an independently generated frame with symbolic payload and jitter.',
     'one frame (98 edges) after 8 arbitrary edges and silence, after a complete earlier frame with any payload, or after one broken off at any edge; clock rates 40 kHz, 1 MHz (more in thorough).',
     'other clock rates (C17), jitter beyond 5 %.')
prop('C06', 'Pulse-distance receivers never invent a command',
     'For any sequence of alternating edges and durations, whenever a NEC-family, Samsung Blu-ray or Denon receiver reports a command, the mark-plus-space distances ending at that very edge spell it: a header (or repeat) distance within 8 % of nominal followed by exactly the right number of bit distances, each within 25 % of the nominal distance of the bit value the command carries (one tick of rounding allowed). '
     'In every other case nothing is reported.',
     ['inputs', 'histories'], 'all streams of alternating edges with arbitrary durations',
     'Tests only feed well-formed frames; the complement (everything that is not a frame) is what this quantifies over.',
     [P + 'nec/decoder.rs', P + 'sbp/mod.rs', P + 'denon/mod.rs', R + 'time.rs'], [('span tolerances', R + 'time.rs'), ('state machines', P)], RX,
     'Receiver::event executed on a stream of arbitrary durations; a monitor over the raw durations is asserted on every report.',
     'streams of 36 (NEC) / 40 (Blu-ray) / 52 (Denon) rising edges with arbitrary 32-bit durations; thorough doubles the NEC length; clock rates 40 kHz, 1 MHz.',
     'longer streams, non-alternating edges, other clock rates.')
prop('C07', 'Bi-phase receivers never invent a command',
     'For any sequence of alternating edges, whenever an RC5 or RC6 receiver reports a command, all intervals since the rising edge that opened the frame last a whole number of half-bit units (within 13 % and one tick; an interval of zero length is none) and the directions of the edges at the bit centres spell exactly that command, after the leader in the case of RC6. '
     'An interval that is no whole number of units ends the frame in progress without any report.',
     ['inputs', 'histories'], 'all streams of alternating edges whose intervals are within 5 % of whole units or more than 13 % away from any',
     'Tests only feed well-formed frames.',
     [P + 'rc5/decoder.rs', P + 'rc6/decoder.rs', R + 'time.rs'], [('clock reconstruction', P + 'rc5/decoder.rs'), ('clock reconstruction, leader and toggle checks', P + 'rc6/decoder.rs')], RX,
     'Receiver::event executed on streams in which every interval is a symbolic choice between whole-unit and no-unit lengths with a symbolic duration; the report is compared with the word read off the edges. Two shapes: an arbitrary history, an opening edge and then every whole-unit stream up to a full frame; and short fully arbitrary streams with a backward reader.',
     'RC5: full frames after 16 arbitrary edges, and fully arbitrary streams of 18 edges. RC6: full frames of 1- and 2-unit intervals after 6 arbitrary edges, and fully arbitrary streams of 25 edges with 1 to 6 units. Clock rates 20/40 kHz and 1 MHz. Thorough: longer histories and streams, up to 4 units inside RC6 frames.',
     'intervals between 5 % and 13 % off (implementation-defined), RC6 header bits other than the supported mode are not judged, missing bit-centre edges are tolerated as the decoder does.')
prop('C08', 'A NEC repeat repeats the last reported command, never anything else',
     'For standard, 16-bit, Samsung and Apple NEC receivers and any stream of alternating edges: a report flagged as repeat carries exactly the fields of the most recently reported full command, and none is ever made before a full command was reported. '
     'After a full frame, every repeat code within 5 % of nominal timing is reported as a repeat at the edge that ends its space.',
     ['inputs', 'histories'], 'all edge streams with arbitrary durations, including aborted frames, and all held-key sequences',
     'Tests replay one recorded frame-plus-repeats sequence.',
     [P + 'nec/decoder.rs'], [('command memory across resets', P + 'nec/decoder.rs')], RX,
     'Receiver::event executed on (a) a frame and repeat codes with symbolic payload and jitter, (b) arbitrary streams from power-up, (c) a full frame followed by an arbitrary stream; repeats are compared with the last full report.',
     '(a) 2 repeats (4 thorough); (b) 42 rising edges (80 thorough); (c) 8 (40 thorough) arbitrary rising edges after the frame; arbitrary 32-bit durations; 40 kHz or 1 MHz.',
     'longer streams, the raw NEC variant (it has no repeat flag).')

prop('C09', 'No input makes a receiver or an encoder panic',
     'For every sequence of events with arbitrary durations, edges (also several alike in a row) and time stamps, every configured frequency and every clock type, no receiver, polled receiver or decoder of any protocol panics, overflows or reads out of bounds. The same holds for encoding and loading any value of any command type into a sender whose buffer holds a frame.',
     ['inputs', 'histories', 'configurations'], 'all durations, edges, stamps, frequencies and command values',
     'Tests replay well-formed recordings; panics sit at extreme durations, odd edge orders and counter ends.',
     ['src/receiver.rs', R + 'time.rs', R + 'time/primitives.rs', R + 'time/fgt.rs', P + 'utils.rs', P + 'nec/decoder.rs', P + 'rc5/decoder.rs', P + 'rc6/decoder.rs', P + 'sbp/mod.rs', P + 'denon/mod.rs', 'src/sender'],
     [('arithmetic on durations, bit counters and buffers', 'all decoders and encoders')], ['Receiver::event', 'Receiver::event_instant', 'PeriodicPoll::poll', 'DecoderBuilder::build', 'PulsedataSender::load_command'],
     'The code is compiled with overflow checks; every reachable panic, overflow or out-of-bounds access is a verification condition whose path condition the solver must refute. Harnesses supply arbitrary events from power-up, arbitrary events after all but the last bits of a frame, arbitrary frequencies, stamps and commands.',
     '16 arbitrary events from power-up (40 in thorough) on u32, u64 and fugit clocks; 10 arbitrary events behind a frame prefix with any payload; 4 stamps; polled receivers with 4 arbitrary samples (8 in thorough) after any uptime up to 2^32 samples (the counter word that an idle poll increments is advanced); all 32-bit frequencies; every command value (RC6 in slices). The same conditions are part of every other check.',
     'longer unstructured histories; send buffers too small for a frame.')
prop('C10', 'After a report a receiver is as good as new',
     'Once a receiver has reported a command or an error, or has completed a frame whose word is not valid, it answers everything that follows exactly as a newly made receiver would; the one thing it may remember is the last complete command of the NEC family, for repeat codes. '
     'In particular frames that follow each other, or follow a broken frame, are each reported with exactly their own payload: nothing of an earlier frame leaks into a later one.',
     ['inputs', 'histories'], 'all payloads of consecutive frames, all continuations after a command or an error',
     'Tests start every recording with a new receiver or replay similar frames.',
     [P + 'nec/decoder.rs', P + 'rc5/decoder.rs', P + 'rc6/decoder.rs', P + 'sbp/mod.rs', P + 'denon/mod.rs', 'src/receiver.rs'],
     [('reset after Done and Error', 'src/receiver.rs and the decoders')], ['Receiver::event'],
     'Three frames with independent symbolic payloads in a row; a frame, or a frame that breaks off with an error at a fixed edge and an arbitrary interval, followed by arbitrary events in lockstep with a new receiver, or by a complete frame.',
     'three frames in a row per protocol; 4 arbitrary events (8 in thorough) in lockstep; breaks at 9 positions; any invalid Apple word before a valid frame; exact durations for the frames in quick, 5 % jitter in thorough; one clock rate per protocol.',
     'longer lockstep continuations; repeat memory itself (C08).')
prop('C11', 'The buffer iterator yields exactly the commands of the buffer, in order',
     'Iterating over a buffer of durations (first one ending at a rising edge, alternating from there) yields exactly the commands that an event receiver of the same protocol and frequency reports for the same edges, in order. '
     'Decode errors and frames without a command in the middle of the buffer end neither the iteration nor hide later commands; the iterator ends exactly at the end of the buffer.',
     ['inputs', 'histories'], 'all buffers, all decoder answers (command, no command, each error) at every position',
     'Tests iterate over one recorded buffer without errors.',
     [R + 'iter.rs', R + 'bufferinput.rs'], [('iteration, reset and edge reconstruction', R + 'iter.rs')], ['BufferInputReceiver::iter', 'BufferInputReceiver::iter_with'],
     'BufferIterator::next executed (a) over a stub protocol that folds every call made on the decoder into a digest and answers as the symbolic durations say, compared with a model of the event receiver; (b) over real frames with symbolic payloads and a broken frame in between, in lockstep with Receiver::event.',
     '(a) buffers of 0, 1, 2, 5 and 6 arbitrary durations (10 in thorough); (b) two complete NEC / Denon / Blu-ray frames with arbitrary payloads, broken frame in between.',
     'longer buffers.')
prop('C12', 'Polling a pin level reports exactly what its run lengths spell',
     'For every sequence of samples, a periodic-poll receiver behaves as its decoder fed with one event per level change carrying the number of samples since the previous change (or since power-up), and returns nothing on samples without a change. '
     'A nominal frame of any supported protocol sampled at the documented rates (20 or 40 kHz; RC6 40 kHz), at any phase, is decoded to the sent payload.',
     ['inputs', 'histories', 'schedules'], 'all sample sequences; all payloads and sampling phases',
     'Tests do not poll at all or poll one recorded frame.',
     [R + 'ppoll.rs', R + 'decoder.rs', R + 'time.rs'], [('clock and edge bookkeeping', R + 'ppoll.rs'), ('event_total', R + 'decoder.rs')], ['PeriodicPoll::poll', 'PeriodicPoll::poll_base'],
     'PeriodicPoll::poll executed on symbolic samples, with a decoder that reports every event it is fed and with a digesting stub; then ProtocolDecoder::event_total executed over frames whose intervals are any rounding of the nominal ones to whole samples.',
     '32 arbitrary samples with the reporting decoder, 9 with the digesting stub, runs of 66 000 equal samples before 5 arbitrary ones (140 000, 64, 12 in thorough); any uptime up to 2^32 samples before arbitrary samples (the counter word that an idle poll increments is advanced by a symbolic amount); one sampled frame per protocol and rate.',
     'runs longer than the stated ones; in sampled frames each interval (and each mark-plus-space distance) is rounded independently, a superset of what one phase can produce.')
prop('C13', 'Time stamps and durations are interchangeable',
     'For every sequence of time stamps, event_instant behaves as event called with the differences between consecutive stamps, the first one counted from time zero. '
     'A stamp earlier than the previous one counts as a distance of zero and becomes the new reference; fugit 32-bit and 64-bit timers are compared modulo their range, so a timer wrap between two edges is transparent.',
     ['inputs', 'histories', 'configurations'], 'all stamp sequences for u32, u64, fugit 32-bit and fugit 64-bit clocks',
     'Tests never use event_instant with wrapping or unordered stamps.',
     ['src/receiver.rs', R + 'time/primitives.rs', R + 'time/fgt.rs'], [('checked_sub and prev_instant', 'src/receiver.rs')], ['Receiver::event_instant'],
     'Receiver::event_instant executed on arbitrary stamps with the digesting stub; compared with a model fed with differences.',
     '5 arbitrary stamps and edges (10 in thorough) per clock type; fugit at 1 MHz and 32768 Hz.',
     'two fugit stamps exactly half the timer range apart (their order is not defined).')
prop('C14', 'Pin receivers read active-low and a pin error leaves no trace',
     'A receiver with an input pin treats a low pin as mark (rising edge of the signal) and a high pin as space. A pin error is returned unchanged as the Hal error and leaves decoder and time reference untouched, so the following events are judged as if the failed call had not happened; every decoding error keeps its kind. '
     'pin, pin_mut and release give access to the very pin that was configured.',
     ['inputs', 'histories', 'faults'], 'all event sequences, levels, pin failures at any position and error codes',
     'Tests use a dummy pin that never fails.',
     ['src/receiver.rs', R + 'ppoll.rs', R + 'error.rs'], [('pin access', 'src/receiver.rs'), ('error conversion', R + 'error.rs')], ['Receiver::event', 'Receiver::event_instant', 'PeriodicPoll::poll'],
     'The pin flavours of event, event_instant and poll executed with a symbolic pin (level or error code) before every call, digesting stub as decoder.',
     '5 calls (10 in thorough; twice as many polls), arbitrary levels, faults, durations and stamps.',
     'whether a poll whose pin read failed counts as elapsed time (both readings are accepted).')
prop('C15', 'Every slot of a multi-receiver behaves as the single receiver',
     'For every event sequence, slot k of a MultiReceiver reports exactly the command that a single receiver of protocol k, built with the same resolution, reports for the same events, converted to the generic command; an error in one slot is invisible in the others. '
     'The iterator forms yield the filled slots in slot order, and a pin error is returned without touching any slot.',
     ['inputs', 'histories', 'faults', 'configurations'], 'all event sequences, 2 to 6 slots, u32 and u64 clocks, pin faults',
     'Tests run one 2-protocol combination over one recording.',
     [R + 'multi.rs'], [('per-arity event and make', R + 'multi.rs')], ['MultiReceiver::event_generic', 'MultiReceiver::event_generic_iter', 'MultiReceiver::event', 'MultiReceiver::event_iter'],
     'MultiReceiver executed with differently seeded digesting stubs in every slot, and with six real protocols over frames with symbolic payloads in lockstep with single receivers.',
     '3 arbitrary events (6 in thorough) for every arity; one full frame of every protocol family with all six real receivers.',
     'longer histories (slots share no state in the encoded code; each slot is a receiver covered by the other properties).')
prop('C16', 'The clock type makes no difference to what a receiver reports',
     'For the same event sequence and tick rate, receivers on u32, u64, fugit 32-bit and fugit 64-bit clocks report the same: every duration is taken for the same symbol, every event gives the same answer, and frames of every protocol family with all intervals within 5 % of nominal decode to exactly the sent command on each of them.',
     ['inputs', 'histories', 'configurations'], 'all durations and event sequences; all payloads x jitters on u64, fugit 32 and fugit 64 clocks',
     'The tests drive almost everything through u32; the other clock types have their own arithmetic (wider, or through fugit).',
     [R + 'time/primitives.rs', R + 'time/fgt.rs', R + 'time.rs', P + 'utils.rs'], [('per-clock conversion and tolerance arithmetic', R + 'time/primitives.rs and fgt.rs')], ['Receiver::event', 'ProtocolDecoder::spans'],
     'The same symbolic durations are given to decoders and receivers on all four clock types in lockstep; then complete symbolic frames on each clock type.',
     'classification: every 32-bit duration; streams of 6 arbitrary alternating events (10 in thorough) in lockstep; one full frame per protocol and clock type at one rate each.',
     'u64/fugit-64 durations above 32 bits, other rates for the frames on those clocks (classification is compared at 20 kHz, 38 kHz, 40 kHz, 1 MHz and 48 MHz).')
prop('C17', 'Symbols are told apart the same way at every clock frequency',
     'For every clock frequency from 20 kHz (RC6: 40 kHz) to the largest 32-bit value, a duration within 4 % of a protocol symbol is taken for that symbol. A duration outside the tolerance of the symbol (plus a tick of rounding) is never taken for it: about 9 % for NEC headers, 26 % for NEC bits, 13 % for RC5 and RC6 units, 11 % for Blu-ray and Denon symbols.',
     ['inputs', 'configurations'], 'all 32-bit clock frequencies x all 32-bit durations x every symbol of every protocol',
     'Tests use one or two clock rates.',
     [R + 'time/primitives.rs', R + 'time.rs', P + 'utils.rs', P + 'nec/decoder.rs', P + 'rc5/decoder.rs', P + 'rc6/decoder.rs', P + 'sbp/decoder.rs', P + 'denon/mod.rs'],
     [('conversion of microseconds to ticks and tolerance spans', R + 'time.rs and time/primitives.rs')], ['DecoderBuilder::build', 'ProtocolDecoder::spans'],
     'build and the span lookup executed with a symbolic frequency and a symbolic duration; nonlinear 64-bit arithmetic decided by the solver.',
     'all frequencies for acceptance; for rejection up to 4 MHz in quick and all of them in thorough.',
     'frequencies below 20 kHz (40 kHz for RC6) where a tick exceeds the tolerance; durations between the inner and outer tolerance. The margin is 4 % rather than 5 % because the Blu-ray tolerance itself is 5 % and tick rounding eats into it.')
prop('C18', 'What an encoder sends, the decoder of that protocol reports',
     'For every command of NEC, NEC-16, Samsung, Apple, raw NEC and RC5, and every RC6 address, command and toggle, playing the encoded frame into a receiver of the same protocol running at the same rate reports exactly that command, once per frame, without errors, frame after frame.',
     ['inputs', 'configurations'], 'all command values of every encodable protocol, sampled sender rates 20 kHz to 48 MHz',
     'The tests round-trip a few commands at one rate.',
     [P + 'nec/encoder.rs', P + 'rc5/encoder.rs', P + 'rc6/encoder.rs', P + 'nec/standard.rs', P + 'nec/apple.rs', P + 'nec/samsung.rs', P + 'nec/nec16.rs', 'src/sender.rs'],
     [('encoders', P + '*/encoder.rs'), ('pack', P + 'nec/*.rs')], ['ProtocolEncoder::encode', 'Receiver::event'],
     'encode executed on a symbolic command into a buffer with stale contents; the resulting symbolic durations are fed to Receiver::event, twice, 50 ms apart.',
     'two consecutive frames; rates 20 kHz, 38 kHz, 40 kHz, 1 MHz, 48 MHz; RC6 in slices (all addresses for fixed commands and all commands for fixed addresses).',
     'RC6 command pairs outside the slices, Apple fields wider than 5/7 bits, other rates; Blu-ray and Denon have no encoder.')
prop('C19', 'Encoded frames are exactly the frames of the protocol',
     'For every command, the encoded frame starts at once, alternates marks and spaces in the order the protocol prescribes, with every interval equal to the nominal length up to tick rounding, carries all its bits and every closing mark (NEC stop mark, final half bit), and ends with the transmitter off.',
     ['inputs', 'configurations'], 'all command values of every encodable protocol, sampled sender rates',
     'Tests compare one or two encoded frames.',
     [P + 'nec/encoder.rs', P + 'rc5/encoder.rs', P + 'rc6/encoder.rs', P + 'nec/*.rs'], [('encoders', P + '*/encoder.rs')], ['ProtocolEncoder::encode'],
     'encode executed on a symbolic command; the solver compares every entry with an independent waveform generator.',
     'all commands (RC6 in slices in quick); rates 20 kHz, 38 kHz, 40 kHz, 1 MHz and 48 MHz.',
     'rates in between; RC6 above 9.6 MHz (its encoder constants overflow at compile time).')
prop('C20', 'A loaded frame is played exactly, then nothing',
     'For every loaded frame and every tick timing (including counter wrap), each mark and space is output until the first tick at which its duration has passed, and no longer. After the last entry the sender is idle and the output is off and stays off; nothing left over from an earlier, longer frame is ever played. '
     'The embedded-hal sender enables its output exactly during the marks, and nothing before a frame is loaded.',
     ['inputs', 'schedules', 'histories'], 'all frame contents, all tick times modulo 2^32',
     'Tests tick through one frame with ideal timing and no check of the tail.',
     ['src/sender.rs', 'src/sender/hal.rs'], [('tick state machine', 'src/sender.rs'), ('pin driving', 'src/sender/hal.rs')], ['PulsedataSender::tick', 'Sender::tick', 'Sender::load'],
     'load_command and tick executed with a stub encoder whose durations are symbolic, at regular and at arbitrary symbolic tick times; the RC5 encoder for the full path.',
     'frames of 1, 3 and 5 entries of 1 to 3 ticks (5 in thorough) at regular ticks; arbitrary 32-bit durations and tick times for 1 and 3 entries; RC5 frames with all commands; loading after any idle uptime up to 2^32 ticks.',
     'frames with an even number of entries (no encoder produces one).')
prop('C21', 'A frame being sent is not disturbed by loading another',
     'Sender::load during a transmission leaves the running frame untouched at every tick; after the frame is over it starts the new frame from its beginning. load_command on the plain sender always starts the new frame at once and completely, whatever was loaded or sent before, and reset empties it at any point.',
     ['inputs', 'schedules', 'histories'], 'every tick position of the second load or reset x all frame contents',
     'Tests never load twice.',
     ['src/sender.rs', 'src/sender/hal.rs'], [('busy check', 'src/sender/hal.rs'), ('load_command', 'src/sender.rs')], ['Sender::load', 'PulsedataSender::load_command', 'PulsedataSender::reset'],
     'Sender executed with two symbolic frames and a symbolic position of the second load.',
     'a 3-entry frame followed by a 1-entry frame, entries of 1 to 3 ticks (4 in thorough), second load at every tick.',
     'a load in the very tick between the last change and the first idle tick (either outcome is accepted).')
prop('C22', 'Packing and unpacking of protocol words lose nothing',
     'For every command of NEC, NEC-16, Samsung, Apple (5-bit page, 7-bit command), raw NEC and RC5, unpacking the packed word gives the command back and the packed word is valid. validate accepts exactly the words with the complements, copies, vendor and odd parity the variant prescribes, every valid word packs to itself after unpacking, and Apple unpacking refuses exactly the invalid words. '
     'RC5, RC6 and Blu-ray unpacking puts every bit into its field.',
     ['inputs'], 'all commands, all 32-bit (14-bit, 16-bit, 20-bit) words',
     'Tests check one or two words per variant.',
     [P + 'nec/standard.rs', P + 'nec/nec16.rs', P + 'nec/samsung.rs', P + 'nec/apple.rs', P + 'nec/raw.rs', P + 'rc5/mod.rs', P + 'rc6/cmd.rs', P + 'sbp/mod.rs'],
     [('pack, unpack, validate', P + 'nec/*.rs')], ['NecCommandVariant::pack, unpack, validate', 'Rc5Command::pack, unpack', 'Rc6Command::from_bits', 'SbpCommand::unpack'],
     'pack, unpack and validate executed on symbolic commands and words, compared with bit layouts written from the protocol descriptions.',
     'none beyond the field widths: every command and every word.',
     'RC5 commands whose fields do not fit their widths; whether NEC, Samsung and NEC-16 unpack checks the complements (they do not; validate does).')
prop('C23', 'Commands made from address and command are faithful or refused',
     'create returns a command exactly when address and command fit the protocol (NEC, Samsung, RC6: 8/8 bits, RC5: 5/6 bits, Blu-ray: 16/8 bits), and then address() and command() return exactly the given values, the packed word carries them and the command is not a repeat. Apple commands cannot be created from an address, and their command number tells every (page, command) pair apart.',
     ['inputs'], 'all 32-bit address and command values',
     'Tests create one or two commands with small values.',
     ['src/cmd.rs', P + 'nec/standard.rs', P + 'nec/samsung.rs', P + 'nec/apple.rs', P + 'rc5/mod.rs', P + 'rc6/cmd.rs', P + 'sbp/mod.rs'],
     [('AddressCommand implementations', P)], ['AddressCommand::create', 'AddressCommand::address', 'AddressCommand::command'],
     'create and the accessors executed on arbitrary 32-bit values.',
     'none: every pair of 32-bit values.', 'nothing known.')
prop('C24', 'Generic commands and protocol numbers identify what was received',
     'Converting a command of any protocol to AnyCommand keeps its protocol, address, command and repeat flag (for Denon the raw 48 bits). Protocol numbers 1 to 8 convert to their protocol and back; every other number is Unknown.',
     ['inputs'], 'all command values of every protocol, all 256 protocol numbers',
     'Tests do not cover the conversions.',
     ['src/cmd.rs', 'src/protocol.rs', P + 'denon/mod.rs'], [('From conversions', 'src/cmd.rs, src/protocol.rs')], ['AnyCommand::from', 'ProtocolId::from'],
     'The conversions executed on symbolic commands and numbers.',
     'none: every value.', 'the raw field of protocols other than Denon.')
prop('C25', 'Remote controls map commands to buttons and back',
     'For every command, a remote control yields an action exactly when the address is the one of the device and the command is one of its documented keys, and then the documented action (Apple: by page and command, whatever the paired device id). Every action of a remote encodes to a command that decodes to the same action; actions it does not have are refused. '
     'A Button carries the very command, its action and its repeat flag, and no two actions share a name.',
     ['inputs', 'configurations'], 'all commands and all actions x all five remote controls',
     'Tests map one or two commands of one remote.',
     ['src/remotecontrol/mod.rs', 'src/remotecontrol/mapper.rs', 'src/remotecontrol/nec/*.rs', 'src/remotecontrol/rc5/cdplayer.rs', 'src/remotecontrol/sbp/blurayplayer.rs'],
     [('decode, encode, key tables', 'src/remotecontrol')], ['RemoteControlModel::decode', 'RemoteControlModel::encode', 'Button::from'],
     'decode, encode and Button executed on symbolic commands and actions; the oracle is a snapshot of the published key tables.',
     'none: every command and every action.', 'model names and device types; the validity flag of Blu-ray commands, which the mapping ignores.')
prop('C26', 'The configured frequency, pin and clock are the ones in effect',
     'However a receiver is made (constructors, builder calls in any order, polled, buffered, multi, fugit), the decoder is built for exactly the configured frequency: the last one given, 1 MHz by default for the builder and the plain buffer receiver, the timer rate for the fugit constructors. '
     'The configured pin is the one that is read and released.',
     ['configurations'], 'all 32-bit frequencies, every construction path',
     'Tests construct receivers with one or two constants and cannot see which frequency reached the decoder.',
     [R + 'builder.rs', 'src/receiver.rs', R + 'ppoll.rs', R + 'bufferinput.rs', R + 'multi.rs'], [('builder', R + 'builder.rs'), ('constructors', 'src/receiver.rs')], ['receiver::Builder', 'Receiver constructors', 'BufferInputReceiver', 'MultiReceiver::new'],
     'Every construction path executed with a symbolic frequency and a stub protocol whose command carries the frequency its decoder was built with.',
     'all frequencies; the listed construction paths and call orders.',
     'protocol selection by the shorthand methods is fixed by the type system.')

prop('C27', 'A decoder has a command exactly when it says it is done',
     'Driving a decoder directly, command() returns a command only in state Done (and always then, save for Apple words that are not valid), never before the first event or after reset. event_total and Receiver::event report exactly what the steps event, command, reset report, for every event sequence.',
     ['inputs', 'histories'], 'all event sequences and payloads, every protocol',
     'Tests use the step-by-step interface on complete recordings only.',
     [R + 'decoder.rs', 'src/receiver.rs', P + 'nec/decoder.rs', P + 'rc5/decoder.rs', P + 'rc6/decoder.rs', P + 'sbp/mod.rs', P + 'denon/mod.rs'],
     [('event_total', R + 'decoder.rs'), ('command', 'all decoders')], ['ProtocolDecoder::event', 'ProtocolDecoder::command', 'ProtocolDecoder::event_total', 'ProtocolDecoder::reset'],
     'A step-driven decoder, one driven by event_total and a receiver executed in lockstep on arbitrary events and on complete symbolic frames.',
     '6 arbitrary events with arbitrary edges (12 in thorough) per protocol; one full frame per protocol with any payload and 5 % jitter.',
     'what command() returns when events go on after Done without a reset.')
prop('C28', 'A frame of one protocol family is not taken for another',
     'A frame of any payload of NEC, Samsung, RC5, RC6, Samsung Blu-ray or Denon timing, every interval within 5 % of nominal, after silence, is never reported as a command by a receiver of a different one of these families (it may be reported as an error).',
     ['inputs', 'configurations'], 'all payloads and jitters x all 30 ordered pairs of families',
     'Tests feed each decoder recordings of its own protocol.',
     [P + 'nec/decoder.rs', P + 'rc5/decoder.rs', P + 'rc6/decoder.rs', P + 'sbp/mod.rs', P + 'denon/mod.rs'],
     [('header and symbol spans, frame lengths', 'all decoders')], ['Receiver::event'],
     'Receiver::event of one family executed over independently generated frames of another with symbolic payload and jitter.',
     'one frame, 40 kHz (six pairs also at 1 MHz in thorough).', 'variants that share their timing (NEC, NEC-16, Apple and raw), other clock rates.')
prop('C29', 'The capture-file example reports exactly what the decoders report',
     'Parsing a logic-analyser capture with the example program yields, for the chosen wire, exactly the commands that the receivers report for the edge timings stored in the file.',
     ['inputs'], 'all capture files', 'The example has no test over its parser.',
     ['examples/vcd-parser/src/lib.rs'], [('conversion of change timestamps to durations', 'examples/vcd-parser/src')], ['vcd_parser API'],
     '', '', '')
prop('C30', 'Reset, at any point, makes a decoder as good as new',
     'Calling reset on a decoder of any protocol, in whatever state it is (idle, in the middle of a frame, between the two edges of a mark, done or failed), makes it answer every following event as a newly made decoder would; the one thing it may remember is the last complete command of the NEC family, for repeat codes. '
     'A frame received after the reset is reported with exactly its own payload.',
     ['inputs', 'histories'], 'all partial frames with all payloads, one arbitrary event after it, then all event sequences or all frames',
     'Tests never reset a decoder in the middle of anything.',
     [P + 'nec/decoder.rs', P + 'rc5/decoder.rs', P + 'rc6/decoder.rs', P + 'sbp/mod.rs', P + 'denon/mod.rs'], [('reset', 'all decoders')],
     ['ProtocolDecoder::reset', 'ProtocolDecoder::event', 'ProtocolDecoder::command'],
     'A decoder that has seen part of a symbolic frame (cut at a symbolic edge), one arbitrary event and a reset, executed in lockstep with a new decoder, and over a complete symbolic frame.',
     'one frame of any payload with exact intervals, broken off at any edge, one arbitrary event, reset; then 4 arbitrary events (8 in thorough) or one frame of any payload with exact intervals; 40 kHz or 1 MHz.',
     'several resets in a row; longer arbitrary histories.')
prop('C31', 'Pulse spans classify a duration by the first span that holds it',
     'For any eight pulse lengths and tolerances, PulseSpans::get returns the first span whose nominal length plus or minus its tolerance holds the duration and nothing when none does, and check_overlaps is true exactly when two different spans share a duration, on every clock type. Adding durations saturates and subtracting instants is refused when the result would be negative, on every clock type.',
     ['inputs', 'configurations'], 'all durations, two pulse lengths at a time, all four clock types',
     'No test builds spans of its own or calls check_overlaps.',
     [R + 'time.rs', R + 'time/primitives.rs', R + 'time/fgt.rs'], [('get, check_overlaps, create_span', R + 'time.rs')], ['PulseSpans::new', 'PulseSpans::get', 'PulseSpans::check_overlaps', 'InfraMonotonic'],
     'PulseSpans::new, get and check_overlaps executed on symbolic pulse lengths and durations, against an independent interval oracle; the clock arithmetic on symbolic values.',
     'two of the eight pulse lengths symbolic, 0 to 500 and 0 to 1000 us (2000 in thorough), the other six fixed; eight fixed tolerances; durations of any 32-bit value; clock 1 MHz (other rates: C17).',
     'tolerances above 100 %, durations of 2^62 ticks and more.')
